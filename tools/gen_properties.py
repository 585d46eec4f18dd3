#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the readable source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": observe, "hook_needed": hook}})

CUR, ELG, ZK, HASH = "pkg/curve/secp256k1.go", "pkg/crypto/commitment/commitment.go", "pkg/crypto/zkpok/zkpok.go", "pkg/crypto/hash.go"
SRV, ERR = "pkg/sync/server.go", "pkg/sync/error.go"
DS, DK, RS, ML, DH, PO = ["pkg/arith/" + f for f in ("distributed_secret.go", "distributed_key.go", "reshare.go", "mult.go", "checkDH.go", "poly.go")]
TE = "pkg/tecdsa/tecdsa.go"

prop("C01", "Curve operations form the secp256k1 group",
 "For every sequence of group operations, addition, negation, scalar multiplication, base multiplication and equality agree with the cyclic group of the curve's prime order, including the neutral element, doublings and sums of opposite points. Two points compare equal exactly when they are the same group element, and the concrete coordinates are those of secp256k1.",
 ["inputs", "histories"], "all points (neutral, generator, opposite pairs, points with short coordinates) and all operation sequences over them",
 "The specs add 1G, 2G and the neutral element once each; they never add opposite points, multiply or negate the neutral element, or compare with an independent implementation.",
 [CUR], [("Add's case split on neutral/equal/distinct points", CUR + ":Add"), ("negation as multiplication by order-1", CUR + ":Neg"), ("comparison of neutral and affine points", CUR + ":Equal")], ["curve.Group methods"])
prop("C02", "Scalars of any size multiply modulo the group order; arguments survive",
 "Multiplying a point or the generator by any nonnegative scalar, of any length and at or above the group order, gives the same result as multiplying by the scalar reduced modulo the order. No group operation changes the points or scalars it was given, nor the group's own constants.",
 ["inputs"], "all nonnegative scalars (0, n-1, n, n+1, 2^256-1, multiples of n, hundreds of bytes) and all points",
 "The specs use scalars 0, 1, 2, 3, n-1 and one random scalar, all below the order, and never look at the arguments afterwards.",
 [CUR], [("reduction of the scalar before the C multiplication", CUR + ":ScalarMult, ScalarBaseMult")], ["curve.Group.ScalarMult", "curve.Group.ScalarBaseMult"])
prop("C03", "Point encoding round-trips in any stream",
 "Every group element, the neutral one included, decodes from its encoding to an equal element, and different elements have different encodings. Encodings written one after another to a stream decode back in order and consume exactly their own bytes, whatever the sizes of the pieces in which the reader delivers them.",
 ["inputs", "schedules"], "all points (including coordinates with leading zero bytes), sequences of points, and read fragmentations",
 "One spec round-trips one random point through a bytes.Buffer: no neutral element, short coordinate, sequence of points or short read.",
 [CUR], [("length-prefixed coordinates", CUR + ":Encode"), ("length-directed reads", CUR + ":Decode")], ["curve.Group.Encode", "curve.Group.Decode"])
prop("C04", "Untrusted bytes decode to a curve point or an error",
 "Decoding arbitrary bytes as a point either fails with an error or yields a genuine element of the secp256k1 group whose re-encoding decodes to an equal element; truncated encodings and coordinates off the curve are rejected. It never panics and never allocates memory out of proportion to the input.",
 ["inputs"], "all byte strings: truncations, wrong or overflowing lengths, coordinates off the curve or not below the field prime, random bytes",
 "No spec decodes a malformed encoding.",
 [CUR], [("length and range validation", CUR + ":Decode")], ["curve.Group.Decode"])
prop("C05", "The challenge hash is one fixed function into the scalar range",
 "The Fiat-Shamir challenge of a message is HKDF-SHA256 of the whole message (salt \"ThresholdECDSA\", info \"H2F\" 0 1), 48 bytes read as a big-endian integer and reduced modulo the curve's group order. It depends on the message only, so that every party derives the same scalar, on every byte of the message, and it does not change the message.",
 ["inputs"], "all messages of every length, and all single-byte changes of a message",
 "The hash has no test of its own; the proof specs use the same function on both sides, so any function would pass them.",
 [HASH], [("HKDF expansion and reduction", HASH + ":HashToBigInt")], ["crypto.HashToBigInt"], state=[("Q", "modulus of challenges", HASH)])
prop("C06", "ElGamal commitments are homomorphic",
 "Composing, exponentiating and inverting commitments gives exactly the commitment to the sum, multiple and negation of the committed values and randomness modulo the group order, and the neutral commitment is the identity and is recognised as such. This holds for every commitment base, also when the receiver is one of the operands or held another value before, and operands other than the receiver keep their values.",
 ["inputs", "histories"], "all values, randomness, exponents, bases and all sequences of in-place operations over a pool of commitments",
 "Each operation is tested once on (3,5) and (7,11) under the base 2G; aliasing, neutral operands, large exponents and chains never occur.",
 [ELG], [("componentwise group operations", ELG + ":Compose, Exp, Inverse"), ("neutral commitments", ELG + ":Neutral, IsNeutral")], ["ElGamal.Compose/Exp/Inverse/Equal", "ElGamalFactory.Create/Neutral/IsNeutral"])
prop("C07", "ElGamal commitments bind value and randomness",
 "Under one base, two commitments are equal exactly when both their values and their randomness agree modulo the group order. A commitment to v with randomness r under base h is the pair (g^r, h^r g^v), so the holder of the logarithm of h recovers g^v from it, and a changed value, randomness or base changes the commitment.",
 ["inputs"], "all pairs of (value, randomness), equal or differing in one component only, and all bases",
 "Two fixed pairs are compared; nothing checks the two components separately or against the definition.",
 [ELG], [("construction of the pair", ELG + ":ElGamalFactory.Create"), ("comparison of both components", ELG + ":ElGamal.Equal")], ["ElGamalFactory.Create", "ElGamal.Equal", "ElGamal.Encode"])
prop("C08", "Commitments and proofs round-trip through any stream",
 "Every commitment and every knowledge or refresh proof decodes from its encoding to an object that behaves the same - equal commitment, proof accepted for exactly the same statement - and encodes to the same bytes again. Several of them written to one stream decode back in order and consume exactly their own bytes, whatever the sizes of the pieces the reader delivers.",
 ["inputs", "schedules"], "all commitments and proofs (neutral components, short scalars and coordinates), mixed sequences of them, and read fragmentations",
 "One object at a time goes through a bytes.Buffer in the specs, with one fixed witness.",
 [ELG, ZK, CUR], [("concatenated component encodings", ELG + ":Encode, Decode"), ("length-prefixed responses then the first message", ZK + ":Encode, Decode")], ["Encode/Decode of ElGamal, ZKEGKnow, ZKEGRefresh"])
prop("C09", "Malformed commitments and proofs are rejected cleanly",
 "Decoding truncated or arbitrary bytes as a commitment, a knowledge proof or a refresh proof returns an error, or an object that is complete: it can be encoded, compared and verified without a panic. Decoding never panics and never allocates memory out of proportion to the input.",
 ["inputs"], "all byte strings: every truncation of valid encodings, wrong or overflowing lengths, mutated and random bytes",
 "No spec decodes a malformed commitment or proof.",
 [ELG, ZK, CUR], [("propagation of nested decoding errors", ZK + ":ZKEGKnow.Decode, ZKEGRefresh.Decode"), ("length validation", ZK + ", " + CUR)], ["Decode of ElGamal, ZKEGKnow, ZKEGRefresh", "Verify on decoded proofs"])
prop("C10", "Honest proofs always verify",
 "For every value, randomness and commitment base, a knowledge proof made with the true opening of a commitment is accepted for it, and a refresh proof made with the true randomness is accepted for a commitment and its refreshment. Making or checking a proof changes neither the commitments nor the witnesses.",
 ["inputs"], "all witnesses including 0, 1, order-1, short and unreduced ones, all bases, neutral commitments",
 "The specs use one witness (5, 13), (11, 14), 17 under one base.",
 [ZK], [("responses computed modulo the order", ZK + ":NewZKEGKnow, NewZKEGRefresh"), ("verification equations", ZK + ":Verify")], ["NewZKEGKnow, NewZKEGRefresh, Verify"])
prop("C11", "Knowledge proofs cannot be transferred, altered or forged",
 "A proof of knowledge is accepted only for the commitment and base it was made for: used with another statement, altered in any of its components, or made from a wrong opening, it is rejected. Without knowing an opening nobody obtains an accepted proof by choosing some of its components, or the commitment, after the challenge is known.",
 ["inputs"], "all statements, witnesses, single-component alterations of a proof, and transcript-simulation forgeries that solve the verification equation for each component",
 "One proof is checked against one unrelated commitment; no spec alters a proof or plays the cheating prover.",
 [ZK, HASH], [("Fiat-Shamir challenge over statement and first message", ZK + ":NewZKEGKnow, ZKEGKnow.Verify"), ("verification of both components", ZK + ":ZKEGKnow.Verify")], ["ZKEGKnow.Verify"])
prop("C12", "Refresh proofs cannot be transferred, altered or forged",
 "A refresh proof is accepted only for the pair of commitments and base it was made for, in that order, and only if both commit to the same value: used with another pair, altered in any component, made from wrong randomness or for commitments to different values, it is rejected. Nobody obtains an accepted proof for commitments to different values by choosing some of its components, or one of the commitments, after the challenge is known.",
 ["inputs"], "all pairs of commitments, witnesses, single-component alterations, and transcript-simulation forgeries",
 "One proof is checked against one unrelated second commitment and one unrelated first commitment; no spec plays the cheating prover.",
 [ZK, HASH], [("Fiat-Shamir challenge over both statements and first message", ZK + ":NewZKEGRefresh, ZKEGRefresh.Verify"), ("verification of both components", ZK + ":ZKEGRefresh.Verify")], ["ZKEGRefresh.Verify"])
prop("C13", "Proofs hide the witness behind fresh uniform nonces",
 "Every proof draws new blinding values, independent of each other and of earlier proofs and uniform over the whole scalar range, so two proofs of one statement never share a component and no component equals or directly exposes the witness. The only source of these values is the cryptographic random number generator.",
 ["inputs", "histories"], "all statements and long series of proofs by one prover",
 "The specs make one proof per statement and never look at its contents.",
 [ZK], [("independent draws from the group order: two for a knowledge proof, one for a refresh proof", ZK + ":NewZKEGKnow, NewZKEGRefresh")], ["encoded proofs"])
prop("C14", "A round delivers exactly what every party sent",
 "When all parties take part in a round, each party's round ends without error and its check is called exactly once for every other party, never for itself, with byte for byte the message which that party addressed to it in this round. The messages a caller gave to be sent are unchanged afterwards. This holds for any number of parties, broadcast or individual messages, any message sizes including empty ones, and any fragmentation, delay and relative speed of the connections.",
 ["inputs", "schedules", "configurations"], "all committee sizes, payload sizes, broadcast and per-recipient sends, network fragmentations and delays",
 "pkg/sync's tests (which need unavailable modules, so they do not even run here) do one round with 2 and 10 parties, tiny broadcast messages and an ideal network.",
 [SRV], [("framing by length, sender and round", SRV + ":sendToAll, receiveFromAll"), ("connection set-up by announced id", SRV + ":Start")], ["sync.Server.Round", "the check callback"])
prop("C15", "Rounds never mix",
 "Over any sequence of rounds, data is handed to the check only in the round, and under the party, it was sent in and by; a repeated, late or early message, or one that claims another round or sender, is never handed over and makes the round fail for its sender. After any number of successful rounds the next round still delivers correctly.",
 ["histories", "schedules", "fault_sequences"], "all sequences of rounds (past 255 and 65535), with replayed, dropped, reordered or relabelled messages on any link",
 "Every pkg/sync test runs a single round.",
 [SRV], [("round number in every message", SRV + ":sendToAll, receiveFromAll"), ("one round at a time", SRV + ":Round")], ["sync.Server.Round over many rounds"], state=[("round counter", "number of the current round", SRV)])
prop("C16", "A failed round names exactly the parties that failed",
 "If some parties crash, disconnect, send malformed data or data the check rejects, the round ends with a round error whose list of missing parties is exactly those parties. Data from all the other parties has then still been handed to the check, and a party whose connections all work never reports someone that delivered correct data.",
 ["fault_sequences", "crash_points", "schedules"], "all sets of failing parties, kinds of failure (crash before, during or after sending, garbage, rejected data), byte positions of the failure and delays",
 "No pkg/sync test lets a party fail.",
 [SRV, ERR], [("collection of per-party errors", SRV + ":Round, receiveFromAll"), ("list of missing parties", ERR)], ["sync.Server.Round's error", "RoundError.Missing"])
prop("C17", "Bytes from a peer cannot crash or confuse a round",
 "Whatever bytes a connected peer sends in place of its round message - absurd lengths, short messages, a foreign sender id, truncated or trailing data - the party neither panics nor hangs on data that has arrived, nor allocates memory in proportion to a claimed length: its round fails naming that peer. Well-formed data of other peers is unaffected.",
 ["inputs", "fault_sequences"], "all byte streams a peer can send after the connection is set up",
 "No pkg/sync test sends a malformed message.",
 [SRV], [("validation of announced length, sender and round", SRV + ":receiveFromAll")], ["sync.Server.Round"])
prop("C18", "Secret generation gives all parties one consistent committed secret",
 "When generation of a shared secret completes, every party has published one commitment under the common base and all parties hold the same commitments, and each party knows the opening of its own. The shares are fresh and uniform over the scalar range, so the joint secret never repeats; a party whose recorded commitment is not the one it can open is caught when the secret is reshared.",
 ["inputs", "schedules", "configurations"], "all committee sizes, labels, bases, random shares and message substitutions",
 "The arith tests only check that generation returns without error for 2 and 10 honest parties.",
 [DS, RS], [("publication and collection of commitments", DS + ":Gen"), ("proof of knowledge at the start of resharing", RS)], ["messages of the round", "ADSecret.Reshare, TDSecret.Reveal afterwards"])
prop("C19", "Key generation gives all parties the same public key",
 "When distributed key generation completes, every party holds the same public key: the product of one public key share per party, each the generator raised to a share that its owner holds, and shares are fresh and uniform for every key. If the value some party reveals differs in any byte from what it committed to before, the parties receiving it return an error instead of a key.",
 ["inputs", "schedules", "fault_sequences", "configurations"], "all committee sizes, random shares, and alterations of either message of any party",
 "The arith tests only check that generation returns without error for 2 and 10 honest parties.",
 [DK], [("commit-then-reveal", DK + ":GenExpReveal, NMCtmp"), ("product of the shares", DK + ":NewDKey")], ["DKey.PublicKey", "messages of the two rounds"])
prop("C20", "Resharing yields a t-of-n sharing of the same secret",
 "When resharing with threshold t completes, the new shares lie on a random polynomial of degree exactly t-1 whose constant term is the joint secret: any t parties' shares determine it and no t-1 do. Every party can open the commitment that all parties now hold for its share, the threshold is reported as t, a threshold below 1 is refused, and the arithmetic secret that was reshared stays usable.",
 ["inputs", "configurations", "schedules"], "all committee sizes n, thresholds 1..n, secrets and polynomial coefficients",
 "The arith tests check that resharing returns without error for (2,1), (2,2), (10,1), (10,2) and never look at a share.",
 [RS, PO], [("random polynomial with non-zero leading coefficient", PO + ":poly"), ("evaluation and summation of shares", RS + ":Reshare steps 6-10")], ["messages of resharing, Exp and Reveal", "TDSecret.Threshold"])
prop("C21", "Resharing aborts when any message is altered",
 "If what a party receives from another party at any step of resharing - a commitment, a proof, a decommitment, a private evaluation or its randomness - is altered or replaced (other than by an equally valid proof of the same statement), even consistently with the earlier commitment message, the receiving party returns an error and no share. It never panics and never ends with a share inconsistent with the others.",
 ["fault_sequences", "inputs"], "all steps, senders, receivers and message components; bit flips, substituted group elements and scalars, truncations, replays from other parties and sessions",
 "No arith test alters a message.",
 [RS, ZK, DK], [("proof verification in every step", RS + ":check callbacks"), ("commit-then-reveal of coefficients", RS + ":steps 4-5"), ("evaluation against commitment", RS + ":step 8")], ["ADSecret.Reshare's error"])
prop("C22", "Threshold public keys equal the generator raised to the secret",
 "Raising the generator to a threshold secret gives every party the same public key, the generator raised to the shared secret, whichever set of at least t parties responds and whoever is missing. If fewer than t parties respond the operation returns an error, never a wrong key, and it does not panic.",
 ["configurations", "fault_sequences", "inputs"], "all n, t, and sets of absent or rejected parties, including the lowest-numbered ones",
 "The arith tests check that the operation returns without error when everybody responds; no key is compared with anything.",
 [DS, PO], [("Lagrange interpolation in the exponent", DS + ":TDSecret.Exp"), ("coefficients", PO + ":lagrangeCoef")], ["TDKey.PublicKey"])
prop("C23", "Revealing a threshold secret yields the secret or an error",
 "Revealing a threshold secret returns, at every party and whichever set of at least t parties responds, exactly the shared secret as a reduced scalar. If fewer than t parties respond it returns an error, never a wrong value.",
 ["configurations", "fault_sequences", "inputs"], "all n, t, and sets of absent parties",
 "No arith test reveals a secret; the signing tests reveal one but discard the value.",
 [DS, PO], [("interpolation of the shares", DS + ":TDSecret.Reveal")], ["TDSecret.Reveal"])
prop("C24", "Linear combinations of threshold secrets are exact",
 "The locally computed combination of two threshold secrets with public coefficients is, at every party, a threshold secret for the same combination of the two secrets modulo the group order: it can be revealed and raised by any sufficient set of parties like a generated one, also when it is combined again. Its label is the given one and the operands stay intact.",
 ["inputs", "histories", "configurations"], "all coefficients (0, negative-equivalent, unreduced), parties, thresholds and chains of combinations",
 "No arith test calls it; the signing tests discard its result.",
 [DS], [("combination of shares, commitments and randomness", DS + ":Lin")], ["arith.Lin, then TDSecret.Reveal/Exp"])
prop("C25", "Multiplying secrets gives a sharing of the product",
 "Multiplying two arithmetic secrets gives every party an additive share such that the shares sum to the product of the two joint secrets modulo the group order, for any number of parties and any shares, given Paillier keys large enough for the products. The published commitments are to these shares, and the result can be reshared, raised and revealed like any other secret.",
 ["inputs", "configurations"], "all committee sizes, shares (0, 1, order-1, random), Paillier keys",
 "The multiplication tests are skipped in the project's own CI and only check for the absence of errors.",
 [ML], [("pairwise conversion of products to sums", ML + ":PrivMult"), ("publication of the share's commitment", ML + ":Mult")], ["arith.PrivMult", "arith.Mult, then Reshare and Reveal"])
prop("C26", "The Diffie-Hellman check accepts exactly Diffie-Hellman pairs",
 "For every distributed key and every pair of points, the joint check succeeds at every party if the second point is the first one raised to the joint secret key, and fails at every party otherwise. If the values in a party's message are altered on its way, the party receiving it does not accept.",
 ["inputs", "configurations", "fault_sequences"], "all committee sizes, keys, points (neutral included), wrong second points of any kind, alterations of any message",
 "The arith tests do one accepting and one rejecting run with two parties.",
 [DH], [("randomised test and verification value", DH + ":CheckDH"), ("commit-then-reveal", DH)], ["arith.CheckDH's error"])
prop("C27", "All parties end a signing with the same, correct signature",
 "When all parties presign and sign a message, every party returns the same signature (r, s), with r the challenge hash of the joint nonce key and s satisfying the signing equation s*tau = m*rho + r*eta modulo the group order for that presignature's secrets. The signature is a valid signature of the message under the joint public key.",
 ["inputs", "histories", "configurations"], "all committee sizes, thresholds, messages (0, unreduced, random) and histories of signings",
 "The tecdsa tests discard the signatures they obtain.",
 [TE, DS], [("combination of the presignature's secrets", TE + ":Sign"), ("generation of presignatures", TE + ":Presign")], ["tecdsa.Protocol.Sign"])
prop("C28", "A presignature is used at most once",
 "Every successful presigning allows exactly one signing, in order of creation, with the threshold it was created for; a presignature is spent by the attempt even if the signing fails, and a party without presignatures returns an error and sends nothing. No two signings ever use the same nonce.",
 ["histories", "fault_sequences"], "all histories of presign, sign and failing sign operations",
 "The tecdsa tests sign at most once per run.",
 [TE], [("queue of presignatures", TE + ":Sign, Presign")], ["tecdsa.Protocol.Presign, Sign", "messages of the rounds"], state=[("presignatures", "unused presignatures in order", TE)])
prop("C29", "Signing and commitment keys are independent and used as such",
 "Initialisation gives every party the same two joint keys, generated independently of each other, and every commitment made while presigning is made under the second one, never under the signing key. An altered or missing initialisation message makes the receiving party fail.",
 ["inputs", "configurations", "fault_sequences"], "all committee sizes, random keys and alterations of initialisation messages",
 "The tecdsa tests only check that initialisation returns without error for two parties.",
 [TE, DK], [("two key generations and the commitment factory", TE + ":Init")], ["messages of Init and Presign"])
prop("C30", "Secret shares never appear in protocol messages",
 "No message of key generation, secret generation, resharing, raising, multiplication (also once decrypted by its receiver) or the Diffie-Hellman check contains a party's secret share, its polynomial's coefficients or its commitment randomness; evaluations of the polynomial and their randomness go, reduced, to their owner only. Secret values leave a party only when it reveals that secret.",
 ["inputs", "histories", "configurations"], "all protocol runs, committee sizes and thresholds",
 "No test looks at a message.",
 [DS, DK, RS, ML, DH], [("what is written to the send buffers", RS + ", " + DS + ", " + DK + ", " + ML + ", " + DH)], ["messages handed to sync.Server.Round"])
prop("C31", "Generated key files are read back as matching key pairs",
 "For every committee size and list of at least as many addresses (host:port), the files written by the key generation program are accepted by the signing program and give it, for every process, that process's id, its Paillier private key with all its components, and the committee's public keys and addresses in order. The private key of a process decrypts what is encrypted under its line of the committee file.",
 ["inputs", "configurations"], "all committee sizes, address lists and random keys",
 "The programs have no tests.",
 ["cmd/gen_keys/main.go", "cmd/tecdsa/main.go"], [("private key encoding", "cmd/gen_keys/main.go:encodePaillierPrivateKey"), ("decoding", "cmd/tecdsa/main.go:decodePaillierPrivateKey, getMember, getCommittee")], ["files *.pk and keys_addrs", "behaviour of the tecdsa program on them"])
prop("C32", "Malformed configuration is refused, not crashed on",
 "Given any contents of the member file and the committee file, the signing program either accepts a complete configuration - a private key, an id inside the committee, at least two members with key and address - or stops with an error message. It never panics.",
 ["inputs"], "all file contents: truncated and corrupted keys, missing fields, ids out of range or negative, malformed lines",
 "The programs have no tests.",
 ["cmd/tecdsa/main.go"], [("validation while parsing", "cmd/tecdsa/main.go:decodeBigInt, decodePaillierPrivateKey, parseCommitteeLine, getCommittee, getMember, main")], ["log and exit of the tecdsa program"])
prop("C33", "Signing survives the absence of up to n-t parties",
 "If parties stop before or during a signing, every remaining party either returns the signature that the full committee would have produced or an error; it returns the signature whenever at least t parties including itself respond in every round, and an error when fewer do. It never returns a different signature without an error.",
 ["fault_sequences", "crash_points", "configurations"], "all n, t, sets of stopping parties and points in the signing at which they stop",
 "No tecdsa test stops a party.",
 [TE, DS, SRV], [("tolerance of missing parties", DS + ":TDSecret.Reveal, TDSecret.Exp"), ("round errors naming missing parties", SRV)], ["tecdsa.Protocol.Sign"])

prop("C34", "Any history of distributed operations agrees with plain arithmetic",
 "In any history of generating, resharing, linearly combining, multiplying, raising and revealing secrets and checking Diffie-Hellman pairs, every result is the one of the same computation on the joint values modulo the group order, at every party. Using a secret or key, or failing at an operation with it, changes neither it nor anything else that was made before.",
 ["histories", "inputs", "configurations", "fault_sequences"], "all sequences of operations over a growing pool of secrets and keys, failing operations among them",
 "The arith tests do one operation per run on fresh secrets and mostly only look for the absence of errors.",
 [DS, DK, RS, ML, DH], [("operations build new secrets from old ones", DS + ":Lin, Exp, Reveal; " + RS + ":Reshare; " + ML + ":Mult")], ["results of ADSecret, TDSecret, DKey methods"], state=[("shares and commitments", "a party's part of a secret or key", DS)])
prop("C35", "Shared objects may be used by many goroutines at once",
 "Points, scalars, commitments, factories, proofs and the hash give the same results when goroutines use them concurrently as when used in sequence, without data races, and committees in one process do not influence each other. The data given to a round and received from it belongs to the caller alone once the round is over.",
 ["schedules", "inputs"], "all concurrent uses of the same immutable objects, several committees in one process, and reuse of message memory after a round",
 "The specs use every object from one goroutine, and the tests are not run under the race detector.",
 [CUR, ELG, ZK, HASH, SRV], [("operations that write only to fresh results", CUR + ", " + ELG), ("rounds wait for their senders", SRV + ":Round")], ["results of concurrent calls", "race detector"])
prop("C36", "Rounds begin together at the common start",
 "No party sends round data before the common start time, and parties that are ready in time exchange their first messages at that time. A party that is not ready by then gets an error from its first round and exchanges nothing in it, and every other party reports exactly the late ones as missing.",
 ["schedules", "configurations", "fault_sequences"], "all start times, committee sizes and instants at which parties become ready",
 "The sync tests start all servers together in time; none is late and nothing looks at when data is sent.",
 [SRV], [("waiting for the start in the first round", SRV + ":Round")], ["sync.Server.Round", "data on the connections"], state=[("startTime", "when the first round starts", SRV)])

prop("C37", "Getting connected withstands failing attempts and strangers",
 "Starting connects every two parties of the committee in both directions: attempts that fail, before or after the connection was established, are repeated. A connection made by a stranger, which ends early, announces too little, an id outside the committee, the party's own id or the id of a party already connected, is closed and replaces no other connection; nothing is sent over it and nobody crashes. The rounds then work as if it had not been made, and once all parties have stopped, all their connections are closed.",
 ["inputs", "schedules", "fault_sequences", "configurations"], "all orders and delays of the connections, attempts that fail, and connections made by others at any time before the first round",
 "The sync tests connect all servers over perfect connections, to which nobody else connects.",
 [SRV], [("dialling and accepting", SRV + ":Start, accept"), ("closing", SRV + ":Stop")], ["sync.Server.Start, Stop and Round", "connections made, used and closed"], state=[("inDataConn, outDataConn", "the connections to the other parties", SRV)])

prop("C38", "Operations leave nothing behind",
 "However many rounds, operations and signatures follow each other - successful or failing, with all parties or after some have stopped - the number of goroutines and the memory in use do not grow with their number: what was sent and received, used presignatures and dropped results are not kept. After a server has been stopped none of its goroutines is left.",
 ["histories", "configurations", "fault_sequences"], "all sequences of operations of any length by any number of parties",
 "The specs run every operation once and measure nothing.",
 [SRV, TE, DS, RS, ML, CUR, ZK], [("goroutines of a round are waited for", SRV + ":Round, sendToAll, receiveFromAll"), ("presignatures leave the queue", TE + ":Sign")], ["goroutines", "memory in use after garbage collection"])

prop("C39", "The programs do what their options say or refuse them",
 "Given any command line, the signing program either takes part as the given process in exactly the given number of presignings with the given threshold and then as many signatures, from the given time on, and ends; or, if an option is malformed, missing or impossible for the committee (a number of signatures below 1, a threshold below 1 or above the number of members, a time that has passed), it stops with a message and sends nothing. The key generator, given a malformed number, too few addresses or no place to write to, or failing to make a key, stops with a message and writes no committee. Neither ever panics.",
 ["inputs", "configurations"], "all command lines of the two programs",
 "The programs have no tests.",
 ["cmd/tecdsa/main.go", "cmd/gen_keys/main.go"], [("options", "cmd/tecdsa/main.go:getOptions, main"), ("arguments", "cmd/gen_keys/main.go:main")], ["exit, log and messages of the tecdsa program to other parties", "output and files of the gen_keys program"])

prop("C40", "What is published once is never published again",
 "However often generation, key generation, resharing (with a threshold above 1), multiplication, the Diffie-Hellman check, presigning and signing are executed, on the same operands or others: every component of what a party sends - commitments, parts of proofs, ciphertexts, evaluations, test values, and the shares or powers it reveals of a secret that was reshared anew - is new. None has been sent in an earlier execution, by this party or another, none is sent by two parties or to two parties separately, and none occurs twice in a message; only the opening of a commitment repeats, in its own execution, what was committed to.",
 ["histories", "inputs", "configurations"], "all sequences of operations by any number of parties with good sources of randomness",
 "The specs run every operation once and do not look at messages.",
 [DS, DK, RS, ML, DH, TE, ELG], [("randomness of what is published", RS + ", " + DS + ", " + DK + ", " + ML + ", " + DH)], ["messages handed to sync.Server.Round"])

prop("C41", "Missing randomness is never made up",
 "If a party's source of randomness fails, once or for good, before it has given all that generation, key generation, resharing, multiplication, the Diffie-Hellman check, the set-up of signing or presigning draws, the operation does not complete at this party: nothing takes the place of the missing randomness. A source that hands out its bytes in pieces of any size, as every reader may, is as good as one that gives them at once: the party sends the same messages.",
 ["fault_sequences", "inputs", "configurations"], "all operations that draw randomness, all points at which the source fails, all ways to cut what it gives into pieces",
 "The specs use the source of the operating system, which never fails and gives all it is asked for.",
 [DS, DK, RS, ML, DH, PO, ZK, TE], [("draws", RS + ", " + DS + ", " + DK + ", " + ML + ", " + DH + ", " + PO), ("blinding values of proofs", ZK + ":NewZKEGKnow, NewZKEGRefresh")], ["errors of the operations", "messages handed to sync.Server.Round"])

prop("C42", "Private keys stay in their files",
 "The key generator writes what only the holder of a private key may know (LambdaN, PhiN, the factors of the modulus) into this process's .pk file and nowhere else: not into the committee file, other files or its output, whether it completes or fails. The signing program gives nothing of a private key that it reads to anybody: whatever the options, the committee file and the form of the member file, right or wrong, no part of it is in its log, its output, a file that it writes or what it sends to the other parties.",
 ["inputs", "configurations"], "all committees, command lines and configuration files, well-formed or not",
 "The programs have no tests.",
 ["cmd/tecdsa/main.go", "cmd/gen_keys/main.go"], [("error messages about the configuration", "cmd/tecdsa/main.go:getMember, decodePaillierPrivateKey, main"), ("files written", "cmd/gen_keys/main.go:main")], ["log, output, files and messages of the tecdsa program", "output and files of the gen_keys program"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
