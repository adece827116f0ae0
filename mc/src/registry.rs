use crate::*;

const REAL: &str = "the code of /repo itself is executed (no separate model); generic code additionally runs over a finite group implementing the crate's own Group/Point/Scalar traits";

const REFC: &str = "the independent curve/field reference in mc/src/refcurve.rs is correct";

const DKG: &str = "justifications are delivered after the complaint they answer; signatures of honest nodes cannot be forged by the enumerated faults";

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C01", level: "exploration", exhaustive: true, run: p_poly::c01, assumptions: &[REAL],
            rule: "every polynomial over Z_q x every subset/order/hole/duplicate pattern of shares; non-trivial = at least t distinct genuine shares were supplied, so the exact secret is required" },
        Check { id: "C02", level: "exploration", exhaustive: true, run: p_poly::c02, assumptions: &[REAL],
            rule: "every answer sequence of the random source x every secret x every (t-1)-subset of observers; non-trivial = one full observer distribution compared over all secrets" },
        Check { id: "C03", level: "exploration", exhaustive: true, run: p_poly::c03, assumptions: &[REAL],
            rule: "every polynomial over Z_q x base x index x candidate share value, and every share subset for public recovery; non-trivial = genuine share accepted / recovery with >= t shares / sum of equal-length polynomials" },
        Check { id: "C04", level: "exploration", exhaustive: true, run: p_poly::c04, assumptions: &[REAL],
            rule: "every pair of short polynomials over Z_q and every share subset/order for recover_pri_poly; non-trivial = pair with defined sum/product, or recovery with >= t shares" },
        Check { id: "C09", level: "exploration", exhaustive: true, run: p_int::c09, assumptions: &[REAL],
            rule: "every modulus up to the bound x every operand pair x every operation, every byte string up to two bytes; non-trivial = invertible divisor, or an encoding that must be accepted" },
        Check { id: "C05", level: "exploration", exhaustive: true, run: p_scalar::c05, assumptions: &[REAL, "big-integer reference arithmetic (num-bigint-dig) is correct"],
            rule: "every pair of the boundary lattice of 256-bit operands x every operation; non-trivial = boundary pairs and invertible operands (distinct by construction)" },
        Check { id: "C30", level: "exploration", exhaustive: true, run: p_scalar::c30, assumptions: &[REAL, "big-integer reference arithmetic (num-bigint-dig) is correct"],
            rule: "as C05 for each alternative scalar type, plus cross-type encoding; non-trivial = boundary pairs, invertible operands and canonical encodings" },
        Check { id: "C06", level: "exploration", exhaustive: true, run: p_point::c06, assumptions: &[REAL, REFC],
            rule: "all ordered pairs of the point set x {add, sub, chained}, every digit and adjacent digit pair at every scalar position on every multiplication path; non-trivial = operand pairs and base/variable-time multiplications (distinct by construction)" },
        Check { id: "C07", level: "exploration", exhaustive: true, run: p_point::c07, assumptions: &[REAL, REFC],
            rule: "every decision class of the byte-wise comparisons with L and p; non-trivial = strings that must be reported canonical and points that must be reported small-order" },
        Check { id: "C08", level: "exploration", exhaustive: true, run: p_point::c08, assumptions: &[REAL, REFC],
            rule: "every y in the enumerated windows x both signs, every wrong length, every reader/writer fragmentation; non-trivial = decodable points and canonical scalars" },
        Check { id: "C25", level: "exploration", exhaustive: true, run: p_point::c25, assumptions: &[REAL, REFC],
            rule: "every data string in the enumerated set x scripted answers of the random source; non-trivial = a point was produced and its data extracted / its order checked" },
        Check { id: "C26", level: "exploration", exhaustive: true, run: p_point::c26, assumptions: &[REAL, REFC],
            rule: "every enumerated seed / random answer / failing source; non-trivial = distinct keys produced" },
        Check { id: "C31", level: "exploration", exhaustive: true, run: p_point::c31, assumptions: &[REAL, REFC],
            rule: "all pairs and triples of representations; non-trivial = pairs of different representations of one element" },
        Check { id: "C21", level: "fault_enumeration", exhaustive: true, run: p_sym::c21, assumptions: &[REAL, "the aes-gcm crate's detached interface and SHA-256 are correct (reference composition)"],
            rule: "every single-bit fault and truncation of every component, every length; non-trivial = lengths with a sealed value and each fault (distinct by construction)" },
        Check { id: "C22", level: "fault_enumeration", exhaustive: true, run: p_sym::c22, assumptions: &[REAL, REFC],
            rule: "every message length, every truncation, every single-bit fault, every key of a small group; non-trivial = round trips and faulted ciphertexts (distinct by construction)" },
        Check { id: "C23", level: "model_checking", exhaustive: true, run: p_sym::c23, assumptions: &[REAL, "the blake3 crate's one-shot hash is the standard hash"],
            rule: "every operation sequence to the depth bound, executed on the real stream; a state is a node of the operation tree, a transition one real operation compared with the model, a trace one straight-line replay without clones" },
        Check { id: "C24", level: "fault_enumeration", exhaustive: true, run: p_sym::c24, assumptions: &[REAL],
            rule: "every behaviour of every source in every call, every stream answer for small sizes; non-trivial = an output was produced and compared / a full distribution was counted" },
        Check { id: "C10", level: "fault_enumeration", exhaustive: true, run: p_sig::c10, assumptions: &[REAL, REFC, "SHA-512 is implemented correctly"],
            rule: "every message length x seed against the RFC 8032 reference; every single-bit fault, length fault and crafted invalid signature; non-trivial = signatures compared and faulted inputs refused (distinct by construction)" },
        Check { id: "C11", level: "exploration", exhaustive: true, run: p_sig::c11, assumptions: &[REAL, REFC, "the eavesdropper's computations are those of the enumerated menu"],
            rule: "every construction path x message x nonce derivation from public data, every pair of signatures; non-trivial = signatures whose true nonce was recomputed and compared" },
        Check { id: "C12", level: "fault_enumeration", exhaustive: true, run: p_sig::c12, assumptions: &[REAL, REFC, "SHA-512 is implemented correctly"],
            rule: "every (key, R, s) over small groups decides the verification relation; every random answer of the signer; every single fault on Ed25519; non-trivial = accepting triples, signatures and refused faults" },
        Check { id: "C14", level: "model_checking", exhaustive: true, run: p_vss::c14, assumptions: &[REAL, "signatures of other participants cannot be forged by the enumerated faults"],
            rule: "state = (real verifier or dealer state, reference state); transition = one message or timeout applied to the real code and to the reference and compared; trace = a history replayed on Ed25519 with the same verdicts" },
        Check { id: "C16", level: "model_checking", exhaustive: true, run: p_vss::c16, assumptions: &[REAL, "signatures of other participants cannot be forged by the enumerated faults"],
            rule: "as C14 for the two-polynomial scheme" },
        Check { id: "C17", level: "model_checking", exhaustive: true, run: p_dkg::c17, assumptions: &[REAL, DKG],
            rule: "state = (real node state, reference state, set of delivered messages); transition = one message or the timeout applied to the real node and to the reference and compared; trace = a delivery order replayed on Ed25519 with the same verdicts" },
        Check { id: "C18", level: "model_checking", exhaustive: true, run: p_dkg::c18, assumptions: &[REAL, DKG],
            rule: "as C17, over every enumerated combination of faults; in addition the conclusions of all honest nodes that saw the same broadcasts are compared" },
        Check { id: "C19", level: "model_checking", exhaustive: true, run: p_dkg::c19, assumptions: &[REAL, DKG],
            rule: "as C18, over every enumerated shape of old and new group; the public key must stay that of the old group" },
        Check { id: "C13", level: "model_checking", exhaustive: true, run: p_dss::c13, assumptions: &[REAL, "signatures of other participants cannot be forged by the enumerated faults", "SHA-512 is implemented correctly"],
            rule: "state = (real signer state, set of partials the reference holds); transition = one partial signature or own signing applied to the real signer and compared with the reference; non-trivial = states that release a signature, compared with the one computed from the polynomials" },
        Check { id: "C20", level: "model_checking", exhaustive: true, run: p_rab::c20, assumptions: &[REAL, "signatures of honest nodes cannot be forged by the enumerated faults", "a dealer publishes one set of secret commitments, to everybody; messages refused because they came too early are delivered again"],
            rule: "state = (real node state, reference state or set of accepted messages); transition = one message or the timeout applied to the real node; trace = a delivery order replayed on Ed25519 with the same verdicts; non-trivial = states with a qualified set of t dealers (phase 1) or a released key (phase 2)" },
        Check { id: "C15", level: "fault_enumeration", exhaustive: true, run: p_deal::c15, assumptions: &[REAL, "signatures and authenticated encryption cannot be forged except by the enumerated faults"],
            rule: "evaluation = one (verifier, encrypted deal) pair: opened and processed by the real verifier; distinct faults by construction; non-trivial = genuine deals opened and compared with the dealt content" },
        Check { id: "C28", level: "exploration", exhaustive: true, run: p_renew::c28, assumptions: &[REAL],
            rule: "evaluation = one renewal of a share of f by a share of g; non-trivial = accepted renewals, compared with the sum of the polynomials; every t-subset of renewed shares is interpolated" },
        Check { id: "C29", level: "fault_enumeration", exhaustive: true, run: p_save::c29, assumptions: &[REAL, "serde_json and bincode are correct; the random source of a restored node is that of the uninterrupted one (replaced by the harness)"],
            rule: "evaluation = one restored copy taken through one transition (or one value read back) and compared with the uninterrupted node: answer, complete state, results; non-trivial = transitions of the explored histories and distinct values" },
        Check { id: "C27", level: "fault_enumeration", exhaustive: true, run: p_crash::c27, assumptions: &[REAL, "signatures of honest participants cannot be forged; the faulty peer signs whatever it sends with its own key"],
            rule: "state = node after a subset of the genuine messages; evaluation/transition = one faulty message delivered in one state, followed (when it had any effect) by the rest of the run and all queries; non-trivial = faulty messages refused with an error, after which the node must go on as if they had not been sent" },
        Check { id: "C32", level: "exploration", exhaustive: true, run: p_cross::c32, assumptions: &[REAL, "signatures of honest participants cannot be forged"],
            rule: "evaluation = one message of one session delivered to one participant of another in one state of its own session; it must be refused and change nothing; non-trivial = deliveries to a participant already in its session, and pairs of session identifiers compared" },
        Check { id: "C33", level: "exploration", exhaustive: true, run: p_fresh::c33, assumptions: &[REAL, "two independent draws of a 252-bit scalar differ"],
            rule: "every answer sequence of the dealers' random source x every secret x every (t-1)-subset of observers (views including the blinded commitments); every kind of user entropy source x mode x size; non-trivial = one observer distribution compared over all secrets, or one started key generation" },
    ]
}
