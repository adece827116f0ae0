ED = "src/group/edwards25519/"
ENUM = "exhaustive bounded enumeration of executions of the real code against a reference model"
BFS = "explicit-state search whose transitions call the real handlers, checked against a reference model in every state"

prop("C01", "Any t genuine shares, in any order, reconstruct exactly the shared secret",
 "For every secret-sharing polynomial with threshold t, every collection of genuine shares that contains at least t distinct indices reconstructs exactly the secret, whatever the order, holes, repetitions or surplus in the collection. A collection with fewer than t distinct indices yields an error, never a value.",
 ["inputs"], "all polynomials over small prime fields up to t=4 (5 thorough), all subsets, orders, holes and duplicates of up to 4-6 share indices; boundary coefficients on Ed25519",
 "Tests reconstruct from a handful of random polynomials on one group with 0-based contiguous shares; they never enumerate subsets, orders, duplicates or sparse indices.",
 ["src/share/poly.rs"], [("share selection and Lagrange interpolation at 0", "src/share/poly.rs recover_secret/xy_scalar")], ["return value of secret recovery"],
 level="exploration", technique=ENUM, note="all cases within the stated bound, executed on the real generic code over Z_q and on Ed25519; data values outside the alphabet are not covered")

prop("C02", "t-1 shares of a fresh sharing reveal nothing about the secret",
 "When a secret is shared with threshold t using fresh randomness, the joint distribution of any t-1 shares is the same for every secret, and the polynomial's constant term is exactly the secret given. When no secret is supplied the chosen secret is uniform over the random source.",
 ["inputs", "configurations"], "every answer sequence of the random source, every secret and every (t-1)-subset of observers over Z_3..Z_7 (Z_13 thorough), t<=3 (4)",
 "Secrecy is a statement about the distribution over all random answers; a test sees one random polynomial at a time.",
 ["src/share/poly.rs"], [("independent random coefficients", "src/share/poly.rs new_pri_poly")], ["shares produced for enumerated random answers"],
 level="exploration", technique="exhaustive enumeration of every random-source answer (counting argument over the whole distribution)", note="exact counting over finite fields; says nothing about the quality of the operating system's randomness")

prop("C03", "Public commitments accept exactly the genuine shares and recover exactly",
 "The commitment to a sharing polynomial evaluates at every index to the commitment of the private value there, under the standard or any custom base, and the share check accepts a share exactly when it is the genuine one. Commitments add homomorphically, equality is exact, and from any t public shares the committed secret and the whole public polynomial are recovered; fewer yield an error.",
 ["inputs"], "all polynomials over Z_7 t<=3, all bases, all indices, all candidate share values, all share subsets; all pairs over Z_5; boundary coefficients on Ed25519",
 "Tests use one random polynomial and shares 0..n; they never present sparse indices, wrong values exhaustively, or polynomials of unequal length.",
 ["src/share/poly.rs"], [("commitment evaluation, check and recovery", "src/share/poly.rs PubPoly, recover_commit, recover_pub_poly")], ["check() verdict", "recovered commitments"],
 level="exploration", technique=ENUM, note="exhaustive within the stated bound over Z_q, replayed on Ed25519")

prop("C04", "Private polynomials add, multiply, compare and are recovered exactly",
 "Adding or multiplying two sharing polynomials yields the polynomial whose value at every point is the sum or product of theirs, with the right length; adding polynomials of different thresholds is refused; equality is exact. Recovering the private polynomial from any t genuine shares returns exactly the original coefficients, and fewer shares give an error.",
 ["inputs"], "all pairs of polynomials of length <=3 over Z_5 (Z_7 thorough), all share subsets/orders of 4-5 indices",
 "Tests check single random instances; a mistake visible only for particular lengths, zero coefficients or share orders is not sampled.",
 ["src/share/poly.rs"], [("coefficient arithmetic and Lagrange basis", "src/share/poly.rs PriPoly::add/mul/equal, recover_pri_poly")], ["coefficients of results"],
 level="exploration", technique=ENUM, note="exhaustive within the stated bound over Z_q, replayed on Ed25519")

prop("C05", "Ed25519 scalars form the field of integers modulo the group order",
 "Addition, subtraction, negation, multiplication, inversion, division, small-integer conversion and byte reduction of scalars agree with integer arithmetic modulo the prime group order for every 256-bit input, reduced or not, and every result is fully reduced. Every nonzero scalar times its inverse is one.",
 ["inputs"], "all pairs (triples for multiply-add) over an alphabet of boundary values: 0, small, around every power of two and every 21-bit limb edge, around multiples of the order, all-ones patterns, unreduced encodings",
 "Tests use a few random operands; carry and reduction faults in the 21-bit limb arithmetic appear only at particular limb boundaries.",
 [ED+"scalar.rs", ED+"scalar_test_types.rs", "src/group/integer_field/integer.rs"], [("limb multiply/add/subtract/reduce", ED+"scalar.rs sc_mul, sc_add, sc_sub, sc_mul_add"), ("big-integer reduction", "src/group/integer_field/integer.rs")], ["little-endian bytes of results"],
 level="exploration", technique=ENUM, note="exhaustive over a boundary alphabet, not over all 2^256 values")

prop("C06", "Ed25519 points form a group and every multiplication path agrees",
 "Point addition, subtraction and negation satisfy the group laws with the neutral element, agree with affine curve arithmetic, and every result lies on the curve. Scalar multiplication of any point, of the base point, and its variable-time form all equal repeated addition and are linear in the scalar, for every scalar encoding below 2^255 (the documented precondition of the multiplication).",
 ["inputs"], "all pairs over a set of points including neutral, base multiples, all 8 torsion points and mixed-order points; all scalars in a boundary alphabet and all small scalars",
 "Tests check a few random instances on the prime-order subgroup only, never low-order or mixed points or extreme window digits.",
 [ED+"point.rs", ED+"ge.rs", ED+"ge_mult_vartime.rs", ED+"fe.rs", ED+"constants.rs"], [("extended-coordinate formulas", ED+"ge.rs"), ("field arithmetic", ED+"fe.rs"), ("precomputed base table", ED+"constants.rs")], ["encoded result points"],
 level="exploration", technique=ENUM, note="exhaustive over boundary alphabets of points and scalars against independent affine big-integer arithmetic")

prop("C07", "Canonical-encoding and small-order predicates are exact",
 "A scalar encoding is reported canonical exactly when it is 32 bytes encoding an integer below the group order, and a point encoding exactly when its y-coordinate is below the field prime. A point is reported to have small order exactly when eight times it is the neutral element.",
 ["inputs"], "all encodings in windows around 0, the order/prime and their byte-boundary neighbours, every single-byte deviation, all lengths 0..40; all torsion points and multiples",
 "Tests check listed constants; the constant-time comparisons can be wrong for a narrow band of bytes that no sample hits.",
 [ED+"scalar.rs", ED+"point.rs", ED+"constants.rs"], [("constant-time comparison", ED+"scalar.rs is_canonical, point.rs is_canonical/has_small_order")], ["predicate results"],
 level="exploration", technique=ENUM, note="exhaustive over windows at every boundary plus every single-byte deviation")

prop("C08", "Group elements survive encoding, and invalid encodings are refused",
 "Decoding the encoding of any scalar or point returns an equal element, equal elements have one encoding, and the advertised size is the encoded size; the stream-reading and stream-writing forms agree with the buffer forms. Byte strings of the wrong length or that do not name a curve point are refused, and a successfully decoded point lies on the curve with the encoded coordinates.",
 ["inputs"], "all lengths 0..70, all y in windows around 0 and the prime, every short-read split, textual and serde forms, boundary scalars/points",
 "Tests decode only what they just encoded.",
 [ED+"point.rs", ED+"scalar.rs", ED+"ge.rs", "src/group/internal/marshalling/marshal.rs", "src/encoding/encodings.rs"], [("point decompression", ED+"ge.rs set_bytes/write_bytes"), ("generic marshalling", "src/group/internal/marshalling/marshal.rs")], ["decode result and re-encoding"],
 level="exploration", technique=ENUM, note="exhaustive within the stated windows")

prop("C09", "Modular integers behave as the ring of integers modulo their modulus",
 "For every modulus and every pair of operands, sums, differences, products, negation, inverses, quotients, powers and comparisons of modular integers equal the mathematical result and stay in the canonical range. Byte encodings in either byte order round-trip, out-of-range or oversized encodings are refused without changing the receiver.",
 ["inputs"], "every modulus up to 37 (prime and composite where defined), every operand pair, both byte orders, all lengths; plus multi-byte boundary moduli",
 "Tests check a few constants; sign handling, reductions at exact multiples and buffer-length edge cases are unexplored.",
 ["src/group/integer_field/integer.rs"], [("reduction after every operation", "src/group/integer_field/integer.rs")], ["values and encodings"],
 level="exploration", technique=ENUM, note="complete for all moduli up to the bound")

prop("C10", "EdDSA signatures: RFC 8032 compatible, complete, and tamper-proof",
 "A signature made with a seed-derived key is the one RFC 8032 prescribes and always verifies under the matching public key. Verification rejects every altered signature, message or key, every non-canonical or small-order component, every wrong length, and never panics; a private key restored from its encoding signs identically.",
 ["inputs"], "seeds and messages of all lengths across block boundaries; every single-bit flip of signature and key and every bit of short messages; all torsion-point components; s+kL malleability; all lengths",
 "Tests check a handful of vectors and one or two corruptions.",
 ["src/sign/eddsa/eddsa_sig.rs", ED+"curve.rs"], [("deterministic nonce, canonicality and order checks", "src/sign/eddsa/eddsa_sig.rs")], ["signature bytes", "verification verdict"],
 level="fault_enumeration", technique="exhaustive single-fault enumeration over signatures, keys and messages against an independent reference implementation", note="all single-bit and structured faults; not a proof of unforgeability")

prop("C11", "EdDSA signatures never disclose the signing key",
 "No matter how the signing key was obtained (generated, decoded from bytes, or built from an existing key pair), the per-signature secret cannot be computed from public data, and two different messages never share it. Consequently the private key can never be solved for from public keys, messages and signatures.",
 ["inputs", "histories"], "every construction path of a signing key x messages; an eavesdropper trying every nonce derivable from public data, and every pair of signatures",
 "Existing tests only check that signatures verify; a signature that leaks its key verifies perfectly.",
 ["src/sign/eddsa/eddsa_sig.rs"], [("secret prefix hashed into the nonce", "src/sign/eddsa/eddsa_sig.rs sign")], ["signature bytes"],
 level="exploration", technique="exhaustive enumeration of key-construction paths x message histories x a finite eavesdropper (adversary actions on public data)", note="a finite menu of eavesdropper computations; not a cryptographic proof")

prop("C12", "Schnorr signatures: complete, tamper-proof, and nonces are fresh",
 "Every generated signature verifies under the signer's public key with the generic verifier and, on Ed25519, with the EdDSA verifier. Verification rejects every altered signature, message or key and every non-canonical or small-order component; each signature uses its own fresh nonce.",
 ["inputs", "histories"], "every key, nonce and challenge over small groups (full verification relation decided for every (R,s) pair); every bit flip on Ed25519; all lengths",
 "Tests check a couple of corruptions on one key.",
 ["src/sign/schnorr/schnorr_sig.rs"], [("verification equation and canonicality checks", "src/sign/schnorr/schnorr_sig.rs")], ["verification verdict"],
 level="fault_enumeration", technique="exhaustive enumeration of all (key, nonce, R, s) over small groups and of all single faults on Ed25519", note="verification relation decided completely on Z_q; single faults on Ed25519")

prop("C13", "Threshold Schnorr: any t partials in any order give one valid signature",
 "Signers holding shares of a distributed key and a distributed nonce accept exactly the genuine, non-duplicate partial signatures for the same message and session, and as soon as t distinct ones are held every signer outputs the same signature, valid under the group key for ordinary verification. With fewer than t partials, or after rejecting forged, foreign or repeated ones, no signature is released.",
 ["schedules", "inputs", "fault_sequences"], "every delivery order and subset of partial signatures among n<=4 signers with forged, replayed, cross-session and out-of-range partials; keys from both key-generation protocols",
 "Tests deliver partials in one fixed order with one or two forgeries.",
 ["src/sign/dss/dss_sig.rs"], [("session binding, share check against both commitments, duplicate table", "src/sign/dss/dss_sig.rs process_partial_sig/signature")], ["accept/reject verdicts", "signature bytes"],
 level="model_checking", technique=BFS, note="all reachable signer states within the alphabet")

prop("C14", "Verifiable sharing (Pedersen): a verifier certifies exactly the right deals",
 "A verifier approves a deal exactly when its share matches the commitments under a valid threshold, and otherwise complains. Over every sequence of deals, responses, complaints, justifications and the timeout, a deal counts as certified exactly when the dealer was never caught, no complaint is left unjustified, at least t participants approved and no more are missing than the phase allows; repeated, foreign, forged or out-of-range messages change nothing.",
 ["histories", "schedules", "fault_sequences"], "every sequence of messages from an alphabet of genuine and faulty deals, responses, justifications, threshold setting and timeout, to closure, n<=4",
 "Tests walk a few fixed message sequences; the verdict depends on every history.",
 ["src/share/vss/pedersen/vss.rs"], [("aggregator state and certification rule", "src/share/vss/pedersen/vss.rs Aggregator")], ["handler verdicts", "certification verdict", "released deal"],
 level="model_checking", technique=BFS, note="all reachable states of one verifier/dealer pair under the alphabet; traces replayed on Ed25519")

prop("C15", "Deals reach only their addressee, untampered and from the stated dealer",
 "An encrypted deal opens to exactly the dealt content for its addressee under the stated dealer and participant list, and for nobody else. Any alteration of its bytes, any other dealer, participant list or recipient makes it be refused with an error, never a crash or a wrong deal; the addressee's shares recombine to the dealer's secret.",
 ["inputs", "fault_sequences"], "all (dealer, recipient, context) mismatches for n<=4, every single-byte fault and every length of every field of the message, both sharing schemes",
 "Tests flip one field at a time in one place.",
 ["src/share/vss/pedersen/vss.rs", "src/share/vss/rabin/vss.rs", "src/dh/dh_impl.rs"], [("signed ephemeral key, context-bound AEAD", "src/share/vss/*/vss.rs encrypted_deal/decrypt_deal")], ["decryption verdict and content"],
 level="fault_enumeration", technique="exhaustive single-fault enumeration over every byte and field of the encrypted deal", note="all single-byte faults and structural mismatches")

prop("C16", "Verifiable sharing (Rabin): a verifier certifies exactly the right deals",
 "A verifier of the two-polynomial scheme approves a deal exactly when both shares match the blinded commitments under a valid threshold, and otherwise complains. Over every sequence of deals, responses, complaints, justifications and the timeout, the deal is certified exactly when the dealer was never caught, enough participants approved and the scheme's complaint limits hold; repeated, foreign, forged or out-of-range messages change nothing.",
 ["histories", "schedules", "fault_sequences"], "every sequence of messages from an alphabet of genuine and faulty deals, responses, justifications and timeout, to closure, n<=4",
 "Tests walk a few fixed message sequences.",
 ["src/share/vss/rabin/vss.rs"], [("aggregator state and certification rule", "src/share/vss/rabin/vss.rs")], ["handler verdicts", "certification verdict"],
 level="model_checking", technique=BFS, note="all reachable states of one verifier/dealer pair under the alphabet; traces replayed on Ed25519")

prop("C17", "Distributed key generation: all honest nodes get shares of one key",
 "In a run of the distributed key generation, whatever the order in which deals and responses are delivered, every honest node that completes holds the same public polynomial; its share matches that polynomial at its own index, any t shares reconstruct the discrete logarithm of the public key, and fewer than t do not. The key contains the contribution of every qualified dealer and no other.",
 ["schedules", "configurations"], "every delivery order (up to commuting deliveries) for n<=4, all thresholds; default thresholds",
 "Tests deliver messages in one fixed order.",
 ["src/share/dkg/pedersen/dkg.rs"], [("per-dealer verifiers and qualified-set sum", "src/share/dkg/pedersen/dkg.rs dkg_key, qual_iter")], ["distributed key share of each node"],
 level="model_checking", technique=BFS, note="all delivery orders at each node within the bound; representative traces replayed on Ed25519")

prop("C18", "Key generation with faulty nodes: agreed qualified set or a clean failure",
 "With faulty dealers (bad shares, silence, false complaints, refused or bad justifications) and lost messages, a node reports completion only when at least a threshold of deals is certified, otherwise it returns an error and no share. Honest nodes that saw the same broadcasts agree on the qualified set and on the key; a justified complaint does not disqualify its dealer and an unjustified one does.",
 ["fault_sequences", "schedules"], "every single-dealer fault and every combination of per-message faults for n=3,4 with timeouts at every point",
 "Tests exercise one hand-written fault.",
 ["src/share/dkg/pedersen/dkg.rs", "src/share/vss/pedersen/vss.rs"], [("certification, timeout, qualified set", "src/share/dkg/pedersen/dkg.rs threshold_certified, qual, set_timeout")], ["certified flags", "qualified set", "share"],
 level="model_checking", technique=BFS, note="every combination of faults in the menu")

prop("C19", "Resharing preserves the group key and yields valid shares for the new group",
 "After a resharing, for any old and new group (same, overlapping, disjoint, larger, smaller) and thresholds, every new node that completes holds a share of the same secret under the same public key, consistent across nodes, and any new-threshold subset reconstructs it. Deals that do not commit to the dealer's old share are rejected, and with fewer than the old threshold of good deals nobody completes.",
 ["configurations", "schedules", "fault_sequences"], "all old/new group shapes up to 4+4 nodes and thresholds, subsets of participating dealers, delivery orders, faulty dealers",
 "Tests run a few fixed configurations with in-order delivery.",
 ["src/share/dkg/pedersen/dkg.rs"], [("constant-term check against the old public polynomial; two-dimensional interpolation", "src/share/dkg/pedersen/dkg.rs process_deal, resharing_key")], ["new shares and public polynomial"],
 level="model_checking", technique=BFS, note="all configurations within the bound on Z_p with p=2^61-1; representative ones replayed on Ed25519")

prop("C20", "Rabin key generation: agreement, and exposed dealers are reconstructed",
 "In the two-phase key generation every honest node that finishes holds the same public key and polynomial and a matching share, for every delivery order; any t shares reconstruct the secret key. A qualified dealer that publishes false commitments is exposed by a valid complaint and its contribution is reconstructed to its true value; an invalid complaint against an honest dealer is refused.",
 ["schedules", "fault_sequences"], "delivery orders and single-dealer faults of both phases for n<=4",
 "Tests deliver in one fixed order with one hand-written fault.",
 ["src/share/dkg/rabin/dkg.rs", "src/share/vss/rabin/vss.rs"], [("secret-commitment, complaint and reconstruction phases", "src/share/dkg/rabin/dkg.rs")], ["distributed key share"],
 level="model_checking", technique=BFS, note="all delivery orders at each node within the bound; representative traces replayed on Ed25519")

prop("C21", "Key agreement and authenticated encryption round-trip and reject tampering",
 "Both sides of a Diffie-Hellman exchange derive the same key. Authenticated encryption opens to the original plaintext exactly when key, nonce, context, additional data and ciphertext are all the ones used to seal, and any other combination yields an error.",
 ["inputs"], "all plaintext/ad lengths across block boundaries; every single-bit fault of key, nonce, ciphertext, tag and additional data; all key lengths; agreement over all key pairs in small groups",
 "Tests check a few lengths and one or two corruptions.",
 ["src/dh/dh_impl.rs"], [("HKDF and AES-256-GCM wrappers", "src/dh/dh_impl.rs")], ["open verdict and plaintext"],
 level="fault_enumeration", technique="exhaustive single-fault enumeration against an independent composition of HKDF and AES-GCM", note="all single faults within the length bound")

prop("C22", "Public-key encryption opens only for the key holder and only if intact",
 "Decrypting an encryption under the matching private key returns the message, for every message length including empty. Any other key, any altered byte, and any truncated or extended ciphertext yields an error, never a crash or a different message; encrypting twice gives unrelated ciphertexts.",
 ["inputs", "fault_sequences"], "all message lengths 0..200, every ciphertext prefix, every single-bit fault, every key in a small group",
 "Tests check one message and one corruption.",
 ["src/encrypt/ecies/ecies_impl.rs", "src/dh/dh_impl.rs"], [("ephemeral DH, HKDF, AES-GCM", "src/encrypt/ecies/ecies_impl.rs")], ["decrypt verdict and plaintext"],
 level="fault_enumeration", technique="exhaustive enumeration of lengths, truncations and single-bit faults", note="all single faults and truncations within the bound")

prop("C23", "The extendable-output stream is one fixed stream however it is read",
 "The output stream depends only on the bytes absorbed: splitting writes, reads and key-stream calls in any way yields the same concatenated stream, which is the standard hash's extended output. Writing after reading is refused until a reseed, a reseed makes it writable again with a new deterministic stream, a clone continues exactly like the original, and each use of the destination buffer follows its contract.",
 ["histories"], "every sequence of write/read/key-stream/reseed/clone/write-after-read operations up to depth 5 (7 thorough) over a small chunk alphabet",
 "Tests walk a few fixed sequences.",
 ["src/xof/blake3/xof.rs", "src/xof/traits.rs", "src/cipher/stream.rs"], [("absorb/squeeze state machine", "src/xof/blake3/xof.rs")], ["bytes produced", "errors"],
 level="model_checking", technique="exhaustive enumeration of operation sequences against a reference model", note="all operation sequences to the stated depth")

prop("C24", "Randomness helpers: right size, in range, and fail only when all sources fail",
 "A random stream over several sources yields output that depends on every healthy source, tolerates any proper subset failing, and errors exactly when all fail. Random bits have the requested length (exactly, when asked), random integers are uniform below their modulus and never outside it, and byte filling is exact.",
 ["inputs", "fault_sequences"], "every combination of healthy/short/failing/interrupted sources for up to 3 readers over call histories; every bit length 0..80; every stream answer for small moduli",
 "Tests check one healthy and one failing reader and a few bit lengths.",
 ["src/util/random/random_stream.rs"], [("source mixing and rejection sampling", "src/util/random/random_stream.rs")], ["bytes and errors"],
 level="fault_enumeration", technique="exhaustive enumeration of environment answers", note="all answer combinations within the bound")

prop("C25", "Data embedded in a point is recovered exactly; picked points are sound",
 "Embedding any byte string of up to the advertised length into a point and extracting it returns exactly that string, and longer strings are truncated to the advertised length. Every picked or embedded point lies in the prime-order subgroup, is not neutral, and survives encoding; extraction from points that embed nothing fails or respects the length bound without crashing.",
 ["inputs"], "all lengths 0..40 with several contents and random-source answers; all length-byte values for extraction",
 "Tests embed one or two strings.",
 [ED+"point.rs"], [("try-and-increment embedding with cofactor clearing", ED+"point.rs embed/data")], ["extracted data"],
 level="exploration", technique=ENUM, note="all lengths, a finite set of contents and random answers")

prop("C26", "Generated keys are well formed and their halves match",
 "Every generated or derived key pair has a public key equal to the base point times the private key, and private keys derived from a seed are clamped as the standard prescribes and depend only on the seed. Distinct random-source answers give distinct keys and a failing random source gives an error rather than a fixed key.",
 ["inputs", "fault_sequences"], "seeds of all lengths 0..130 and every byte pattern in the alphabet; scripted and failing random sources; both generation paths",
 "Tests generate a couple of keys.",
 ["src/util/key/key_pair.rs", ED+"curve.rs", ED+"suite.rs"], [("hash-and-clamp", ED+"curve.rs new_key_and_seed_with_input"), ("pair generation", "src/util/key/key_pair.rs gen")], ["key bytes"],
 level="exploration", technique=ENUM, note="exhaustive over the seed/stream alphabet")

prop("C27", "No message from a peer can crash a participant",
 "Whatever well-typed message a remote participant sends at whatever point of a sharing, key-generation, resharing or signing run - including ones with wrong lengths, indices, counts or undecodable content - the receiving node returns a result or an error; it never panics or hangs, then or later. After an error the node continues the run unaffected, except that a bad justification signed by the dealer itself counts against that dealer.",
 ["inputs", "fault_sequences", "histories"], "every handler x every single-field structural mutation (empty, short, long, extreme index, zero, neutral element, default element) x every protocol phase; every byte fault of serialized messages",
 "Tests send well-formed messages with one wrong value.",
 ["src/share/vss/pedersen/vss.rs", "src/share/vss/rabin/vss.rs", "src/share/dkg/pedersen/dkg.rs", "src/share/dkg/rabin/dkg.rs", "src/sign/dss/dss_sig.rs"], [("index, length and signature validation in handlers", "src/share, src/sign")], ["absence of panics", "continued completion"],
 level="fault_enumeration", technique="exhaustive enumeration of single-field message faults at every protocol phase", note="all faults in the menu at every phase, n=3")

prop("C28", "Renewing a share keeps the key and stays consistent",
 "Combining a distributed key share with a renewal share of secret zero gives shares of the same secret under the same public key whose public polynomial matches every renewed share. Renewal with a non-zero secret, another participant's index, or an incompatible polynomial is refused without crashing.",
 ["inputs"], "all pairs of polynomials over Z_5, t<=3, all indices and index/length mismatches",
 "Tests renew once with one configuration.",
 ["src/share/dkg/pedersen/dkg.rs", "src/share/dkg/rabin/dkg.rs"], [("share and commitment addition", "renew")], ["renewed share"],
 level="exploration", technique=ENUM, note="complete over Z_5 within the bound")

prop("C29", "A node restored from its saved state continues exactly as before",
 "Saving a participant's state at any point of a sharing, key-generation, resharing or signing run and restoring it yields a participant that gives the same answers and ends with the same result as one that was never interrupted. Every protocol message likewise survives serialization unchanged.",
 ["crash_points", "histories"], "a save/restore at every step of every explored run (one and two crashes), each protocol",
 "Tests never restore state in the middle of a run.",
 ["src/share/vss/pedersen/vss.rs", "src/share/vss/rabin/vss.rs", "src/share/dkg/pedersen/dkg.rs", "src/share/dkg/rabin/dkg.rs", "src/sign/dss/dss_sig.rs"], [("derived serialization of all state", "struct definitions")], ["subsequent verdicts and results"],
 level="fault_enumeration", technique="exhaustive enumeration of crash/restore points", note="every crash point of every run in the bound")

prop("C30", "Alternative scalar implementations agree with the primary one",
 "The additional public scalar types compute the same field: every operation on them gives the same encoded result as the primary scalar type for every input. They encode and decode interchangeably with it.",
 ["inputs"], "all operand pairs over the boundary alphabet, every operation",
 "Only a few random operands are compared in tests.",
 [ED+"scalar_test_types.rs"], [("factored multiply/add/subtract", ED+"scalar_test_types.rs")], ["encoded results"],
 level="exploration", technique=ENUM, note="exhaustive over a boundary alphabet")

prop("C31", "Equality, ordering and hashing of group elements are mutually consistent",
 "Two elements are equal exactly when they encode identically, equality ignores how an element was computed, comparison is a total order in which equal elements compare as equal, and equal elements hash equally. Copies and assignments preserve equality.",
 ["inputs"], "all pairs over elements reached through different computation paths",
 "Tests compare elements computed one way.",
 [ED+"point.rs", ED+"scalar.rs"], [("encoded comparison", ED+"point.rs eq")], ["comparison verdicts"],
 level="exploration", technique=ENUM, note="all pairs over a finite set of representations")

prop("C32", "Messages of one session are never accepted in another",
 "A response, deal, justification, secret commitment, complaint, reconstruction share or partial signature produced in one session (another dealer, participant list, secret, threshold or message) is refused by every participant that has entered a different session (a verifier enters one with the deal it accepts; before that only dealer and participant list tell sessions apart). Session identifiers of different sharings differ and all participants of one sharing compute the same one.",
 ["histories", "configurations"], "every pair of distinct sessions in a family x every message kind x every receiver",
 "Tests corrupt the session identifier once.",
 ["src/share/vss/pedersen/vss.rs", "src/share/vss/rabin/vss.rs", "src/share/dkg/rabin/dkg.rs", "src/sign/dss/dss_sig.rs"], [("session identifier in every signed message", "src/share/vss/*/vss.rs session_id")], ["accept/reject verdicts"],
 level="exploration", technique="exhaustive cross-session replay of every message kind", note="all session pairs in the family")

prop("C33", "Every sharing hides its secret and is drawn afresh from all its sources",
 "In both dealer schemes and in Rabin key generation, what any t-1 participants receive (and, where commitments are blinded, what everybody sees) is distributed identically for every secret. No coefficient of a freshly drawn polynomial repeats within or between sharings. A key generation given a user entropy source mixes it with its own unless told to use it alone: a weak or copied source does not repeat the secret, a source used alone determines it through every byte consumed, and one that yields nothing is refused.",
 ["inputs", "configurations"], "every answer of the random source x every secret x every (t-1)-subset x every participant list over Z_5 and Z_7; every kind of user source x both modes x all n,t up to 5 (9)",
 "Secrecy is a statement over the whole distribution of random answers, and the tests run one sharing at a time with the default source.",
 ["src/share/vss/pedersen/vss.rs", "src/share/vss/rabin/vss.rs", "src/share/dkg/pedersen/dkg.rs", "src/share/dkg/rabin/dkg.rs", "src/util/random/random_stream.rs"], [("fresh polynomials of a dealing", "src/share/vss/*/vss.rs new_dealer"), ("choice of the random source", "src/share/dkg/pedersen/dkg.rs new_dist_key_handler"), ("mixing of sources", "src/util/random/random_stream.rs")], ["plaintext deals", "commitments", "contributed polynomial"],
 level="exploration", technique="exhaustive enumeration of every random-source answer (counting over the whole distribution) and of source configurations", note="exact over the tiny fields; on Ed25519 only repetition of coefficients and use of the sources are decided")
