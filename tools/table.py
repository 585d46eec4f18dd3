"""What each property's check consists of; MANIFEST.json is generated from this (gen_manifest.py)."""

TRUST_CURVE = "libsecp256k1 as shipped with go-ethereum is part of the code under test; the reference is an independent big.Int implementation"

BINS = [dict(name="tecdsa", pkg="cmd/tecdsa"), dict(name="gen_keys", pkg="cmd/gen_keys"),
        dict(name="probe", pkg="cmd/tecdsa", overlay={"cmd/tecdsa/zz_verif_probe.go": "probe/probe.go.txt"}, optional=True)]

SECRECY = dict(pkg="protop", level="exploration", technique="property testing with recorded randomness: every secret number is searched for in every message, and in what receivers decrypt",
                note="Finds numbers that appear as such, reversed, negated or as quotients; it cannot show that messages reveal nothing.")

PROPS = {
    "C01": dict(pkg="curvep", level="exploration", technique="model-based property testing of operation sequences (rapid) against Z_n and an independent affine/Jacobian secp256k1",
                note="Generated operation sequences and laws; assumes the independent reference in harness/internal/ref is right."),
    "C02": dict(pkg="curvep", level="exploration", technique="property testing with structured scalars against the reduced scalar and a reference",
                note="Scalars up to 1024 bits, edges of multiples of the order; immutability of everything passed in."),
    "C03": dict(pkg="curvep", level="exploration", technique="round-trip property testing over fragmented streams",
                note="Includes neutral and short-coordinate points; coordinates compared through Encode."),
    "C04": dict(pkg="curvep", level="exploration", technique="structured fuzzing of the decoder with a validity oracle and an allocation bound",
                note="Alterations of valid encodings and random bytes up to about 100 bytes."),
    "C05": dict(pkg="cryptop", level="exploration", technique="differential property testing against an independent HKDF and alterations of every message byte",
                note="Messages up to 2 MB with lengths around the block size; assumes SHA-256 of the Go library."),
    "C06": dict(pkg="cryptop", level="exploration", technique="model-based property testing of commitment programs with aliasing against pairs modulo the order",
                note="Bases with known logarithm, so that value and randomness can be read off every result."),
    "C07": dict(pkg="cryptop", level="exploration", technique="property testing of related openings against an algebraic oracle",
                note="The computational binding itself is an assumption; what is checked is that equality, components and encodings are exactly those of the pair."),
    "C08": dict(pkg="cryptop", level="exploration", technique="round-trip property testing over fragmented streams",
                note="Proof objects are compared by their verdicts and encodings."),
    "C09": dict(pkg="cryptop", level="exploration", technique="structured fuzzing of the decoders with an every-method-works oracle and an allocation bound",
                note="Alterations of valid encodings, random bytes, hostile lengths."),
    "C10": dict(pkg="cryptop", level="exploration", technique="property testing of completeness with special blinding values",
                note="Includes the neutral base, zero, unreduced and maximal witnesses."),
    "C11": dict(pkg="cryptop", level="exploration", technique="metamorphic property testing: transfers, alterations, wrong openings and a family of forging strategies must be rejected",
                note="Forgers choose any part of proof or commitment last, with challenges over every ordered subset of the parts; soundness against other strategies is not covered."),
    "C12": dict(pkg="cryptop", level="exploration", technique="metamorphic property testing: transfers, alterations, wrong randomness and a family of forging strategies must be rejected",
                note="As C11, with both commitments and multiples of the first one as the forger's choices."),
    "C13": dict(pkg="cryptop", level="exploration", technique="property testing with controlled randomness: statistics of blinding values, replayed and failing random sources",
                note="The statistics have a false-alarm probability below 1e-12 per run and see no bias smaller than about a quarter of a bit."),
    "C14": dict(pkg="syncp", level="exploration", technique="property testing of the real servers over a virtual network with generated fragmentation, delays and buffers, in virtual time",
                note="1 to 40 parties (70 and 258 once), messages up to 3 MB; the network delivers in order. Rounds that exceed their duration are not explored."),
    "C15": dict(pkg="syncp", level="exploration", technique="model-based property testing of long histories of rounds, and of a party that replays, delays or relabels messages, against a model of the stream",
                note="Histories up to 66000 rounds; one hostile party at a time. After a refused message later ones of the same stream may be delivered or refused, but only in their round."),
    "C16": dict(pkg="syncp", level="exploration", technique="fault-injection property testing (crashes, cuts after any byte, rejected and malformed data) against a model of who must be missing",
                note="A party to which sending failed, although its data arrived, may be reported or not."),
    "C17": dict(pkg="syncp", level="exploration", technique="structured fuzzing of the bytes of one peer against a model of the stream, with an allocation bound",
                note="Claimed lengths up to 2^33 and from 2^48 on (between them an allocation could end the process of the check)."),
    "C18": dict(pkg="protop", level="exploration", technique="property testing of the real protocol between parties over a virtual network: opened commitments against revealed values, fault injection, sensitivity to every bit of randomness",
                note="2 to 12 parties (258 once); the base of the commitments has a known logarithm, so that every commitment can be opened."),
    "C19": dict(pkg="protop", level="exploration", technique="property testing of the real protocol between parties: product of revealed shares, alteration and replacement of messages, sensitivity to every bit of randomness",
                note="1 to 20 parties (258 once). A commitment and value replaced together consistently is accepted by design (no proofs yet) and must then enter the key."),
    "C20": dict(pkg="protop", level="exploration", technique="property testing of the real protocol between parties against interpolation in the exponent of opened commitments",
                note="2 to 11 parties, every threshold; special draws for leading coefficients. Needs the form of the messages of resharing; where it is unknown only the revealed values are checked."),
    "C21": dict(pkg="protop", level="exploration", technique="fault-injection property testing: messages altered in bytes and components, replaced, replayed, forged with valid proofs, or dropped",
                note="One dishonest sender at a time. An alteration that leaves every value the same (trailing bytes, values modulo the order, another valid proof of the same statement) may be accepted."),
    "C22": dict(pkg="protop", level="exploration", technique="stateful property testing of histories with crashes and undecodable data against the opened secret",
                note="2 to 9 parties. Wrong but decodable shares are outside the property (proofs are missing in the code)."),
    "C23": dict(pkg="protop", level="exploration", technique="stateful property testing of histories with crashes against the opened secret",
                note="2 to 9 parties. Wrong shares are outside the property (proofs are missing in the code)."),
    "C24": dict(pkg="protop", level="exploration", technique="model-based property testing of programs of linear combinations against the same combination in the exponent",
                note="2 to 5 parties, up to 4 combinations, nonnegative coefficients of any size."),
    "C25": dict(pkg="protop", level="exploration", technique="property testing of the real protocol between parties against integer arithmetic",
                note="1 to 9 parties, Paillier keys of 514 to 640 bits; the Paillier library is a stand-in of the same scheme (the original is not available offline)."),
    "C26": dict(pkg="protop", level="exploration", technique="property testing of the real check between parties on right and wrong pairs, fault injection",
                note="1 to 7 parties with any shares, among them zero and cancelling ones."),
    "C27": dict(pkg="protop", level="exploration", technique="stateful property testing of the real protocol between parties: every signature against the secrets opened from the commitments of its presignature",
                note="1 to 5 parties, up to 4 presignatures, messages of any size. That the signature is no valid ECDSA signature is a known finding; agreement and the signing equation are decided."),
    "C28": dict(pkg="protop", level="exploration", technique="model-based property testing of histories of presignings and signings, failing ones among them, against a queue",
                note="1 to 4 parties, up to 9 operations. Operations fail for all parties at once, so that the parties stay in the same round."),
    "C29": dict(pkg="protop", level="exploration", technique="property testing of initialisation and presigning: opened commitments, alteration of every message, sensitivity of each key to every bit of randomness",
                note="1 to 6 parties. A commitment and value replaced together consistently is accepted by design (no proofs yet)."),
    "C30": SECRECY,
    "C33": dict(pkg="protop", level="exploration", technique="fault-injection property testing: parties stop before any round or with a message partly sent; differential against the signature of the full committee",
                note="2 to 6 parties. Stopping parties send correct data until they stop."),
    "C31": dict(pkg="cmdp", bins=BINS, level="exploration", technique="round-trip property testing of the two programs on generated committees, with an independent check of the keys",
                note="2 to 12 processes (120 and 260 once), keys of 16 to 2080 bits; the Paillier library and the network are stand-ins. Start-up of the whole system is tried on a few committees over local sockets."),
    "C32": dict(pkg="cmdp", bins=BINS, level="exploration", technique="structured fuzzing of the configuration files against an independent reading of them, in process and through the program",
                note="The files are read by the program's functions through a probe added at build time; if they are renamed only the program itself is observed."),
    "C34": dict(pkg="protop", level="exploration", technique="stateful model-based property testing of histories of distributed operations against plain arithmetic on the joint values",
                note="2 to 4 parties, up to 14 operations, Paillier keys of 514 to 640 bits with a stand-in library. Failing operations fail at all parties at once."),
    "C35": dict(pkg="racep", race=True, level="exploration", technique="property testing of generated concurrent programs under the race detector, against the same operations one after another",
                note="Only races on the schedules that happen are seen; memory used by the C library is not instrumented. Assumes that the caller does not change an object while others use it."),
    "C36": dict(pkg="syncp", level="exploration", technique="property testing of the real servers in virtual time with parties that are ready before or after the start",
                note="1 to 7 parties with synchronous clocks; a start so late that connections do not stand yet is not explored."),
    "C37": dict(pkg="syncp", level="exploration", technique="property testing of starting committees with generated connection faults and foreign connections, against rounds without them",
                note="1 to 7 parties. Connections are not authenticated: a stranger who announces an absent party before that party connects is taken for it, and one who keeps silent occupies a listener; neither is claimed."),
    "C38": dict(pkg="protop", level="exploration", technique="stateful property testing of generated long histories: goroutines and memory in use after more and more repetitions",
                note="1 to 5 parties, up to some thousand operations a history. Less than 8 KB plus 32 bytes for an operation is not noticed; memory of the C library is not seen."),
    "C39": dict(pkg="cmdp", bins=BINS, level="exploration", technique="structured fuzzing of command lines; differential against other parties simulated with the same options",
                note="2 to 5 parties over local sockets in real time for good options, with up to 40 signatures. That a round takes no longer than its duration is not claimed."),
    "C40": dict(pkg="protop", level="exploration", technique="metamorphic property testing of repeated operations: what is sent in one execution is searched for in all others",
                note="2 to 5 parties, up to 6 operations, thresholds above 1. Finds repetitions as such; values related in another way are not seen."),
    "C41": dict(pkg="protop", level="exploration", technique="fault-injection and metamorphic property testing of the source of randomness of one party",
                note="2 to 3 parties. Giving up with a panic counts as not completing; where the order of draws depends on the schedule, messages are not compared."),
    "C42": dict(pkg="cmdp", bins=BINS, level="exploration", technique="property testing of the two programs with generated keys and (mal)formed files, searching all they give away for parts of the keys in binary, decimal, hexadecimal and base64",
                note="Keys of 200 to 520 bits; other encodings of keys are not recognised. Permissions of files are not looked at."),
}
