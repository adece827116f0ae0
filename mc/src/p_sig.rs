//! C10 EdDSA, C11 EdDSA key secrecy, C12 Schnorr.
use crate::engine::*;
use crate::p_point::{pdec, penc, sc, suite};
use crate::p_scalar::{from32, order, to32, B32};
use crate::refcurve::{torsion, Fp, Rp, Table};
use crate::toy::*;
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler, Marshaling};
use kyber_rs::group::edwards25519::{Curve, Point as EdPoint};
use kyber_rs::sign::{eddsa, schnorr};
use kyber_rs::util::key::{new_key_pair, Pair};
use kyber_rs::{Group, Point, Scalar, XOFFactory};
use num_bigint_dig::BigUint;
use num_traits::Zero;
use serde_json::json;
use sha2::{Digest, Sha256, Sha512};
use std::collections::{HashMap, HashSet};

fn h512(parts: &[&[u8]]) -> [u8; 64] {
    let mut h = Sha512::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
fn modl(b: &[u8]) -> BigUint {
    BigUint::from_bytes_le(b) % order()
}
struct RefKey {
    a: BigUint,
    prefix: [u8; 32],
    pk: B32,
}
fn ref_key(seed: &[u8], bt: &Table) -> RefKey {
    let h = h512(&[seed]);
    let mut a: B32 = h[..32].try_into().unwrap();
    a[0] &= 248;
    a[31] &= 127;
    a[31] |= 64;
    RefKey { a: from32(&a), prefix: h[32..].try_into().unwrap(), pk: bt.mul(&a).enc() }
}
fn ref_sign(k: &RefKey, msg: &[u8], bt: &Table) -> [u8; 64] {
    let r = modl(&h512(&[&k.prefix, msg]));
    let rb = bt.mul(&to32(&r)).enc();
    let h = modl(&h512(&[&rb, &k.pk, msg]));
    let s = (r + h * &k.a) % order();
    let mut sig = [0u8; 64];
    sig[..32].copy_from_slice(&rb);
    sig[32..].copy_from_slice(&to32(&s));
    sig
}
fn pat(n: usize, k: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(29).wrapping_add(k)).collect()
}
fn seeds(n: usize) -> Vec<Vec<u8>> {
    let mut v = vec![vec![0u8; 32], vec![0xff; 32], (0..32).collect(), (0..32).rev().collect()];
    for i in 0..n {
        v.push(blake3::hash(&[i as u8, 7]).as_bytes().to_vec());
    }
    v
}

/// Signatures that satisfy (or nearly satisfy) the verification equation but must be refused:
/// malleable scalars, small-order and non-canonical components. (label, key, message, signature)
fn crafted(bt: &Table, extra: usize) -> Vec<(String, B32, Vec<u8>, Vec<u8>)> {
    let l = order();
    let t8 = torsion();
    let mut out: Vec<(String, B32, Vec<u8>, Vec<u8>)> = vec![];
    let k = ref_key(&[42u8; 32], bt);
    for m in 0..extra {
        let msg = pat(m * 7, m as u8);
        let sig = ref_sign(&k, &msg, bt);
        // s + jL
        for j in 1..=15u32 {
            let s = from32(&sig[32..]) + &l * BigUint::from(j);
            if s.bits() <= 256 {
                let mut x = sig.to_vec();
                x[32..].copy_from_slice(&to32(&s));
                out.push((format!("s+{j}L"), k.pk, msg.clone(), x));
            }
        }
        // all torsion encodings, canonical or not
        let mut encs: Vec<(String, B32, usize)> = t8.iter().enumerate().map(|(i, t)| (format!("T{i}"), t.enc(), i)).collect();
        let p = (BigUint::from(1u8) << 255usize) - BigUint::from(19u8);
        for (i, t) in t8.iter().enumerate() {
            let mut e = t.enc();
            let sign = e[31] & 0x80;
            e[31] &= 0x7f;
            let y = from32(&e);
            let yp = &y + &p;
            if yp.bits() <= 255 {
                let mut b = to32(&yp);
                b[31] |= sign;
                encs.push((format!("T{i}+p"), b, i));
                b[31] ^= 0x80;
                if Fp::from_bytes(&b).is_zero() || t.x.is_zero() {
                    encs.push((format!("T{i}+p-sign"), b, i));
                }
            }
            if t.x.is_zero() {
                let mut b = t.enc();
                b[31] ^= 0x80;
                encs.push((format!("T{i}-sign"), b, i));
            }
        }
        // key of small order: R = sB - jT with h = j mod 8, both components otherwise perfect
        for (lab, e, i) in &encs {
            let mut found = 0;
            for s in 1..400u64 {
                let sb = bt.mul(&to32(&BigUint::from(s)));
                let mut hit = false;
                for j in 0..8usize {
                    let jt = t8[(i * j) % 8];
                    let r = sb.add(jt.neg());
                    let rb = r.enc();
                    let h = modl(&h512(&[&rb, e, &msg]));
                    if (&h % BigUint::from(8u8)) == BigUint::from(j) {
                        let mut x = rb.to_vec();
                        x.extend_from_slice(&to32(&BigUint::from(s)));
                        out.push((format!("smallkey-{lab}"), *e, msg.clone(), x));
                        hit = true;
                        break;
                    }
                }
                if hit {
                    found += 1;
                    if found >= 2 {
                        break;
                    }
                }
            }
        }
        // R neutral (and its other encodings): s = h a satisfies the equation
        for (lab, e, i) in &encs {
            let h = modl(&h512(&[e, &k.pk, &msg]));
            let s = (&h * &k.a) % &l;
            let mut x = e.to_vec();
            x.extend_from_slice(&to32(&s));
            out.push((format!("smallR-{lab}"), k.pk, msg.clone(), x));
            // key carrying torsion that cancels R's torsion
            for j in 1..8usize {
                let a2 = Rp::dec(&k.pk).unwrap().add(t8[j]).enc();
                let h = modl(&h512(&[e, &a2, &msg]));
                let hj = (&h % BigUint::from(8u8)).to_bytes_le().first().copied().unwrap_or(0) as usize;
                if (i + hj * j) % 8 == 0 {
                    let s = (&h * &k.a) % &l;
                    let mut x = e.to_vec();
                    x.extend_from_slice(&to32(&s));
                    out.push((format!("smallR-mixed-{lab}-{j}"), a2, msg.clone(), x));
                }
            }
            // all-zero response with small R and small key
            for (lab2, e2, _) in &encs {
                let mut x = e.to_vec();
                x.extend_from_slice(&[0u8; 32]);
                out.push((format!("zero-{lab}-{lab2}"), *e2, msg.clone(), x));
            }
        }
        // valid signature with R shifted by torsion / key shifted by torsion
        for (j, t) in t8.iter().enumerate().skip(1) {
            let r: B32 = sig[..32].try_into().unwrap();
            let mut x = Rp::dec(&r).unwrap().add(*t).enc().to_vec();
            x.extend_from_slice(&sig[32..]);
            out.push((format!("R+T{j}"), k.pk, msg.clone(), x));
            out.push((format!("A+T{j}"), Rp::dec(&k.pk).unwrap().add(*t).enc(), msg.clone(), sig.to_vec()));
        }
        // negated parts
        let r: B32 = sig[..32].try_into().unwrap();
        let mut x = Rp::dec(&r).unwrap().neg().enc().to_vec();
        x.extend_from_slice(&to32(&((&l - from32(&sig[32..]) % &l) % &l)));
        out.push(("negated".into(), k.pk, msg.clone(), x.clone()));
        out.push(("negated-key".into(), Rp::dec(&k.pk).unwrap().neg().enc(), msg.clone(), x));
    }
    out
}

/// Runs one verifier over everything that must be refused around a valid (key, msg, sig).
fn faults(ctx: &Ctx, name: &str, pk: &[u8], msg: &[u8], sig: &[u8], ver: &(dyn Fn(&[u8], &[u8], &[u8]) -> Option<bool> + Sync)) {
    let run = |w: &str, at: usize, pk: &[u8], m: &[u8], s: &[u8]| {
        ctx.eval();
        let case = || json!({"verifier": name, "fault": w, "at": at, "key": hex::encode(pk), "msg": hex::encode(m), "sig": hex::encode(s)});
        match guard(|| ver(pk, m, s)) {
            Err(p) => ctx.fail(&format!("{name}-panic-{w}"), format!("panic: {p}"), case()),
            Ok(Some(true)) => ctx.fail(&format!("{name}-accepts-{w}"), "altered signature, message or key accepted", case()),
            Ok(_) => ctx.nontriv(),
        }
    };
    for b in 0..sig.len() * 8 {
        let mut x = sig.to_vec();
        x[b / 8] ^= 1 << (b % 8);
        run("sig-bit", b, pk, msg, &x);
    }
    for b in 0..pk.len() * 8 {
        let mut x = pk.to_vec();
        x[b / 8] ^= 1 << (b % 8);
        run("key-bit", b, &x, msg, sig);
    }
    for b in 0..msg.len() * 8 {
        let mut x = msg.to_vec();
        x[b / 8] ^= 1 << (b % 8);
        run("msg-bit", b, pk, &x, sig);
    }
    for n in 0..msg.len() {
        run("msg-trunc", n, pk, &msg[..n], sig);
        run("msg-suffix", n, pk, &msg[n + 1..], sig);
    }
    for n in 1..=66 {
        let mut x = msg.to_vec();
        x.extend(vec![0u8; n]);
        run("msg-ext", n, pk, &x, sig);
    }
    for n in 0..=140 {
        if n == sig.len() {
            continue;
        }
        let mut x = sig.to_vec();
        x.resize(n, 0);
        run("sig-len", n, pk, msg, &x);
    }
    for n in 0..=70 {
        if n == pk.len() {
            continue;
        }
        let mut x = pk.to_vec();
        x.resize(n, 0);
        run("key-len", n, &x, msg, sig);
    }
    for i in 0..sig.len() {
        for v in [0u8, 0x7f, 0x80, 0xff] {
            if sig[i] != v {
                let mut x = sig.to_vec();
                x[i] = v;
                run("sig-byte", i, pk, msg, &x);
            }
        }
    }
    let mut x = sig[32..].to_vec();
    x.extend_from_slice(&sig[..32]);
    run("sig-swap", 0, pk, msg, &x);
    for v in [0u8, 1, 0x7f, 0x80, 0xff] {
        run("sig-const", v as usize, pk, msg, &vec![v; 64]);
        run("key-const", v as usize, &vec![v; 32], msg, sig);
        let mut x = sig.to_vec();
        x[..32].fill(v);
        run("R-const", v as usize, pk, msg, &x);
        let mut x = sig.to_vec();
        x[32..].fill(v);
        run("s-const", v as usize, pk, msg, &x);
    }
}

/// Long messages: sizes around every power of two, altered at positions around every power of two.
fn long_messages(ctx: &Ctx, sign: &(dyn Fn(&[u8]) -> Result<Vec<u8>, String> + Sync), pk: &[u8], vers: &[Ver]) {
    let ls: Vec<usize> = widths(9, ctx.pick(17, 22));
    par_items(&ls, |&l| {
        let m = pat(l, 7);
        let case = |w: &str, at: usize| json!({"key": hex::encode(pk), "len": l, "fault": w, "at": at});
        ctx.eval();
        let Some(Ok(sig)) = ctx.nopanic("long-sign-panic", || case("none", 0), || sign(&m)) else {
            ctx.fail("long-sign", "signing failed", case("none", 0));
            return;
        };
        ctx.nontriv();
        for (n, v) in vers {
            ctx.check(matches!(guard(|| v(pk, &m, &sig)), Ok(Some(true))), &format!("long-complete-{n}"), "genuine signature refused", || case("none", 0));
            let refuse = |w: &str, at: usize, x: &[u8]| {
                ctx.eval();
                ctx.check(!matches!(guard(|| v(pk, x, &sig)), Ok(Some(true))), &format!("{n}-accepts-long-{w}"), "altered message accepted", || case(w, at));
            };
            for i in places(l) {
                let mut x = m.clone();
                x[i] ^= 0x10;
                refuse("byte", i, &x);
            }
            refuse("cut", l - 1, &m[..l - 1]);
            refuse("head", 1, &m[1..]);
            refuse("half", l / 2, &m[..l / 2]);
            let mut x = m.clone();
            x.push(0);
            refuse("ext", l, &x);
        }
    });
    ctx.bound(format!("long messages: {} sizes around the powers of two up to {}, altered around every power of two from both ends", ls.len(), ls.last().unwrap()));
}

fn ed_checked(pk: &[u8], m: &[u8], s: &[u8]) -> Option<bool> {
    Some(eddsa::verify_with_checks(pk, m, s).is_ok())
}
fn ed_point(pk: &[u8], m: &[u8], s: &[u8]) -> Option<bool> {
    Some(eddsa::verify(&pdec(pk)?, m, s).is_ok())
}
fn schnorr_suite(pk: &[u8], m: &[u8], s: &[u8]) -> Option<bool> {
    Some(schnorr::verify(suite(), &pdec(pk)?, m, s).is_ok())
}
fn schnorr_curve(pk: &[u8], m: &[u8], s: &[u8]) -> Option<bool> {
    Some(schnorr::verify(Curve::new(), &pdec(pk)?, m, s).is_ok())
}
type Ver = (&'static str, fn(&[u8], &[u8], &[u8]) -> Option<bool>);
const VERS: [Ver; 4] = [("eddsa-checked", ed_checked), ("eddsa", ed_point), ("schnorr-suite", schnorr_suite), ("schnorr-curve", schnorr_curve)];

fn load(seed: &[u8], pk: &[u8]) -> eddsa::EdDSA<Curve> {
    let mut e = eddsa::EdDSA::<Curve>::default();
    let mut b = seed.to_vec();
    b.extend_from_slice(pk);
    e.unmarshal_binary(&b).expect("64 byte private key");
    e
}

pub fn c10(ctx: &Ctx) -> i32 {
    let bt = Table::new(Rp::base());
    // RFC 8032 compatibility and completeness for all message lengths
    let sd = seeds(ctx.pick(4, 12));
    let maxm = ctx.pick(200usize, 420);
    par_items(&sd, |seed| {
        let rk = ref_key(seed, &bt);
        let e = load(seed, &rk.pk);
        let case0 = || json!({"seed": hex::encode(seed)});
        ctx.check(penc(&e.public) == rk.pk, "pubkey", "public key is not the one RFC 8032 prescribes", case0);
        for l in (0..=maxm).chain([1000, 1023, 4096]) {
            for v in [0u8, 3] {
                let msg = if v == 0 { vec![0u8; l] } else { pat(l, v) };
                let case = || json!({"seed": hex::encode(seed), "msg": hex::encode(&msg)});
                ctx.eval();
                ctx.nontriv();
                let Some(Ok(sig)) = ctx.nopanic("sign-panic", case, || e.sign(&msg)) else {
                    ctx.fail("sign-err", "signing failed", case());
                    continue;
                };
                ctx.check(sig == ref_sign(&rk, &msg, &bt), "rfc8032", "signature differs from RFC 8032", case);
                for (n, v) in VERS {
                    ctx.check(matches!(guard(|| v(&rk.pk, &msg, &sig)), Ok(Some(true))), &format!("complete-{n}"), "genuine signature refused", case);
                }
                ctx.check(matches!(e.sign(&msg), Ok(s) if s == sig), "deterministic", "signing twice differs", case);
            }
        }
    });
    {
        let rk = ref_key(&sd[1], &bt);
        let e = load(&sd[1], &rk.pk);
        long_messages(
            ctx,
            &|m| {
                let s = e.sign(m).map_err(|e| format!("{e:?}"))?;
                if s[..] != ref_sign(&rk, m, &bt)[..] {
                    return Err("differs from RFC 8032".into());
                }
                Ok(s.to_vec())
            },
            &rk.pk,
            &VERS,
        );
    }
    ctx.bound(format!("RFC 8032: {} seeds x all message lengths 0..={maxm}", sd.len()));
    // keys through every route: fresh, re-encoded, serialised
    for i in 0..ctx.pick(20u8, 120) {
        ctx.eval();
        let mut st = suite().xof(Some(&[i]));
        let e = eddsa::EdDSA::<Curve>::new(&mut st).expect("new");
        let rk = ref_key(&e.seed, &bt);
        let case = || json!({"stream": i, "seed": hex::encode(&e.seed)});
        let m = pat(i as usize, 9);
        let s = e.sign(&m).unwrap();
        ctx.check(s == ref_sign(&rk, &m, &bt) && penc(&e.public) == rk.pk && e.seed.len() == 32, "fresh-rfc", "a fresh key does not sign as its seed prescribes", case);
        let enc = e.marshal_binary().unwrap();
        ctx.check(enc.len() == 64 && enc[..32] == e.seed[..] && enc[32..] == rk.pk, "encoding", "private key encoding is not seed || public", case);
        let mut r = eddsa::EdDSA::<Curve>::default();
        let ok = r.unmarshal_binary(&enc).is_ok();
        ctx.check(ok && r == e && r.sign(&m).unwrap() == s && r.marshal_binary().unwrap() == enc, "restore", "a restored key differs", case);
        let j: eddsa::EdDSA<Curve> = bincode::deserialize(&bincode::serialize(&e).unwrap()).unwrap();
        ctx.check(j == e && j.sign(&m).unwrap() == s, "serde", "a deserialised key differs", case);
        // loading over a used key leaves nothing behind
        let mut u = load(&[i ^ 0xff; 32], &[0; 32]);
        let ok = u.unmarshal_binary(&enc).is_ok();
        ctx.check(ok && u == e, "restore-over", "loading over a used key differs", case);
    }
    // wrong lengths of the private encoding
    for l in 0..=130usize {
        ctx.eval();
        let mut r = load(&[5; 32], &[0; 32]);
        let before = r.sign(b"m").unwrap();
        if let Some(x) = ctx.nopanic("load-panic", || json!({"len": l}), || r.unmarshal_binary(&pat(l, 1))) {
            ctx.check(x.is_ok() == (l == 64), "load-len", "exactly 64-byte private encodings are accepted", || json!({"len": l}));
            if l != 64 {
                ctx.check(r.sign(b"m").unwrap() == before, "load-refused", "a refused encoding changed the key", || json!({"len": l}));
            }
        }
    }
    // keys that have no seed cannot be encoded, but must not crash
    {
        let p = new_key_pair(&suite()).unwrap();
        let e = eddsa::EdDSA::from(p.clone());
        ctx.eval();
        if let Some(r) = ctx.nopanic("pair-marshal-panic", || json!("EdDSA::from(pair).marshal_binary()"), || e.marshal_binary()) {
            // whatever is produced must restore to a key that signs identically
            if let Ok(b) = r {
                let mut x = eddsa::EdDSA::<Curve>::default();
                ctx.check(x.unmarshal_binary(&b).is_ok() && x.sign(b"m").unwrap() == e.sign(b"m").unwrap(), "pair-marshal", "encoding of a pair-derived key restores to another key", || json!({}));
            }
        }
        let _ = ctx.nopanic("default-marshal-panic", || json!("EdDSA::default().marshal_binary()"), || eddsa::EdDSA::<Curve>::default().marshal_binary());
        for l in 0..50usize {
            let m = pat(l, 1);
            ctx.eval();
            let s = e.sign(&m).unwrap();
            for (n, v) in VERS {
                ctx.check(matches!(guard(|| v(&penc(&p.public), &m, &s)), Ok(Some(true))), &format!("pair-{n}"), "a pair-derived key's signature is refused", || json!({"len": l}));
            }
        }
    }
    // faults
    let fm: Vec<usize> = if ctx.thorough() { (0..=80).collect() } else { vec![0, 1, 2, 20, 63] };
    par_items(&fm, |&l| {
        for (i, seed) in sd.iter().take(ctx.pick(2, 4)).enumerate() {
            let rk = ref_key(seed, &bt);
            let msg = pat(l, i as u8 + 1);
            let sig = load(seed, &rk.pk).sign(&msg).unwrap();
            for (n, v) in &VERS[..2] {
                faults(ctx, n, &rk.pk, &msg, &sig, v);
            }
            // signature under every other key
            for o in &sd {
                if o != seed {
                    let ok = ref_key(o, &bt);
                    ctx.eval();
                    ctx.check(matches!(guard(|| ed_checked(&ok.pk, &msg, &sig)), Ok(Some(false))), "other-key", "verifies under another key", || json!({"seed": hex::encode(seed), "other": hex::encode(o)}));
                }
            }
        }
    });
    let cr = crafted(&bt, ctx.pick(3, 12));
    par_items(&cr, |(lab, pk, m, s)| {
        for (n, v) in &VERS[..2] {
            ctx.eval();
            ctx.nontriv();
            let case = || json!({"verifier": n, "kind": lab, "key": hex::encode(pk), "msg": hex::encode(m), "sig": hex::encode(s)});
            match guard(|| v(pk, m, s)) {
                Err(p) => ctx.fail(&format!("{n}-crafted-panic"), p, case()),
                Ok(Some(true)) => {
                    // eddsa::verify takes a decoded point: a non-canonical key encoding has become canonical
                    let kind: String = lab.chars().take_while(|c| *c != '-').collect();
                    ctx.fail(&format!("{n}-accepts-{kind}"), format!("malleable, small-order or non-canonical signature accepted ({lab})"), case())
                }
                _ => {}
            }
        }
    });
    ctx.extra("crafted_signatures", json!(cr.len()));
    ctx.bound("faults: every bit of signature, key and message, every length, 4 values at every byte; s+kL, every encoding of every torsion point as R and key with the equation satisfied");
    0
}

pub fn c11(ctx: &Ctx) -> i32 {
    let l = order();
    let bt = Table::new(Rp::base());
    // every way to obtain a signing key
    let mut keys: Vec<(String, eddsa::EdDSA<Curve>)> = vec![];
    let n = ctx.pick(3u8, 8);
    for i in 0..n {
        let mut st = suite().xof(Some(&[i, 1]));
        let e = eddsa::EdDSA::<Curve>::new(&mut st).unwrap();
        let b = e.marshal_binary().unwrap();
        let mut r = eddsa::EdDSA::<Curve>::default();
        r.unmarshal_binary(&b).unwrap();
        let s: eddsa::EdDSA<Curve> = bincode::deserialize(&bincode::serialize(&e).unwrap()).unwrap();
        let js: eddsa::EdDSA<Curve> = serde_json::from_str(&serde_json::to_string(&e).unwrap()).unwrap();
        let pair = Pair { public: e.public, private: e.secret };
        let fp = eddsa::EdDSA::from(pair);
        let fps: eddsa::EdDSA<Curve> = bincode::deserialize(&bincode::serialize(&fp).unwrap()).unwrap();
        keys.push((format!("generated-{i}"), e));
        keys.push((format!("decoded-{i}"), r));
        keys.push((format!("serde-{i}"), s));
        keys.push((format!("json-{i}"), js));
        keys.push((format!("pair-of-generated-{i}"), fp));
        keys.push((format!("pair-serde-{i}"), fps));
        let kp = new_key_pair(&suite()).unwrap();
        keys.push((format!("pair-{i}"), eddsa::EdDSA::from(kp)));
        keys.push((format!("seed-{i}"), load(&[i + 50; 32], &[0; 32])));
    }
    for v in [1i64, 2, -1, 1 << 40] {
        let k = suite().scalar().set_int64(v);
        keys.push((format!("pair-scalar-{v}"), eddsa::EdDSA::from(Pair { public: suite().point().mul(&k, None), private: k })));
    }
    let mut msgs: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0; 32], vec![0; 64], vec![0xff; 64]];
    for i in 0..ctx.pick(40usize, 200) {
        msgs.push(pat(i, i as u8));
    }
    let mut uniq = HashSet::new();
    msgs.retain(|m| uniq.insert(m.clone()));
    // public knowledge shared by all: every nonce reduced from a hash of public strings
    let mut ridx: HashMap<B32, (usize, usize, String)> = HashMap::new();
    let mut by_secret: HashMap<B32, Vec<(usize, usize, BigUint)>> = HashMap::new();
    for (ki, (name, e)) in keys.iter().enumerate() {
        let a = penc(&e.public);
        let secret = from32(&e.secret.v) % &l;
        let mut sigs: Vec<(BigUint, B32)> = vec![];
        for (mi, m) in msgs.iter().enumerate() {
            ctx.eval();
            let case = || json!({"key": name, "msg": hex::encode(m)});
            let Some(Ok(sig)) = ctx.nopanic("sign-panic", case, || e.sign(m)) else { continue };
            let rb: B32 = sig[..32].try_into().unwrap();
            let s = from32(&sig[32..]);
            let h = modl(&h512(&[&rb, &a, m]));
            // the true nonce, recomputed with knowledge of the key
            let r = (&s + &l * &l - (&h * &secret)) % &l;
            if !ctx.check(bt.mul(&to32(&r)).enc() == rb, "not-a-signature", "signature does not satisfy its own equation", case) {
                continue;
            }
            ctx.nontriv();
            // the eavesdropper's menu
            let zero32 = [0u8; 32];
            let zero64 = [0u8; 64];
            let ha = h512(&[&a]);
            let pubs: Vec<(&str, Vec<u8>)> = vec![
                ("empty", vec![]),
                ("A", a.clone()),
                ("zeros32", zero32.to_vec()),
                ("zeros64", zero64.to_vec()),
                ("ones32", vec![0xff; 32]),
                ("H(A)", ha.to_vec()),
                ("H(A)hi", ha[32..].to_vec()),
                ("H(A)lo", ha[..32].to_vec()),
                ("sha256(A)", Sha256::digest(&a).to_vec()),
                ("H()", h512(&[]).to_vec()),
                ("H()hi", h512(&[])[32..].to_vec()),
                ("H(zeros32)hi", h512(&[&zero32])[32..].to_vec()),
                ("B", penc(&EdPoint::default().base())),
                ("L", to32(&l).to_vec()),
                ("name", b"EdDSA".to_vec()),
                ("dom2", b"SigEd25519 no Ed25519 collisions".to_vec()),
            ];
            for (pn, p) in &pubs {
                let tails: Vec<Vec<u8>> = vec![m.clone(), vec![], [a.clone(), m.clone()].concat(), [m.clone(), a.clone()].concat(), h512(&[m]).to_vec()];
                for t in &tails {
                    let guesses = [
                        modl(&h512(&[p, t])),
                        modl(&Sha256::digest([p.as_slice(), t].concat())),
                        modl(&h512(&[p, t])[..32]),
                        modl(&h512(&[p, t])[32..]),
                        modl(blake3::hash(&[p.as_slice(), t].concat()).as_bytes()),
                    ];
                    for g in guesses {
                        ctx.eval();
                        if g == r {
                            // demonstrate: solve for the key
                            let hinv = h.modpow(&(&l - BigUint::from(2u8)), &l);
                            let x = ((&s + &l - &g) * hinv) % &l;
                            ctx.fail("nonce-public", format!("nonce is a hash of public data (prefix {pn}); the private key follows from one signature: {}", x == secret), case());
                        }
                    }
                }
            }
            // low-entropy nonces and simple relations to public numbers
            let rl = &l - &r;
            ctx.check(r.bits() > 190 && rl.bits() > 190, "nonce-small", "nonce is a small number", case);
            for (what, v) in [("challenge", h.clone()), ("response", s.clone()), ("hash of A", modl(&ha)), ("key", secret.clone()), ("A bytes", modl(&a)), ("R bytes", modl(&rb))] {
                for d in [BigUint::zero(), BigUint::from(1u8)] {
                    let w = (&v + &d) % &l;
                    ctx.check(w != r && (&l - &w) % &l != r, "nonce-related", &format!("nonce equals {what}"), case);
                }
            }
            sigs.push((r.clone(), rb));
            by_secret.entry(to32(&secret)).or_default().push((ki, mi, r.clone()));
            if let Some((ok, om, on)) = ridx.get(&rb) {
                // the same commitment may recur only for the same key and the same message
                let same_key = from32(&keys[*ok].1.secret.v) % &l == secret;
                ctx.check(same_key && *om == mi, "nonce-reuse", "two different messages or keys share the per-signature secret", || json!({"a": on, "msg_a": hex::encode(&msgs[*om]), "b": name, "msg_b": hex::encode(m)}));
            } else {
                ridx.insert(rb, (ki, mi, name.clone()));
            }
        }
        // every pair of this key's signatures: nonces must not be in a simple relation
        for i in 0..sigs.len() {
            for j in 0..i {
                ctx.eval();
                let d = (&sigs[i].0 + &l - &sigs[j].0) % &l;
                let e2 = (&sigs[i].0 + &sigs[j].0) % &l;
                ctx.check(d.bits() > 150 && (&l - &d).bits() > 150 && e2.bits() > 150, "nonce-pair", "two nonces differ by (or sum to) a small number", || json!({"key": name, "msg_a": i, "msg_b": j}));
            }
        }
        // every bit of the nonce varies over the messages
        for b in 0..252usize {
            ctx.eval();
            let ones = sigs.iter().filter(|(r, _)| (r >> b).to_bytes_le().first().map(|x| x & 1 == 1).unwrap_or(false)).count();
            if b < 250 {
                ctx.check(ones > 0 && ones < sigs.len(), "nonce-bit", "a bit of the nonce never varies", || json!({"key": name, "bit": b}));
            }
        }
    }
    // long messages: two that differ anywhere, by one byte or in their length, never share a nonce
    let ls = widths(7, ctx.pick(16, 20));
    let ks: Vec<&(String, eddsa::EdDSA<Curve>)> = keys.iter().step_by(7).take(ctx.pick(2, 4)).collect();
    par_items(&ls, |&n| {
        for (name, e) in &ks {
            let m = pat(n, 9);
            let mut all: Vec<(String, Vec<u8>)> = vec![("itself".into(), m.clone()), ("one shorter".into(), m[..n - 1].to_vec()), ("half".into(), m[..n / 2].to_vec()), ("without its first byte".into(), m[1..].to_vec())];
            all.push(("extended by zero".into(), [m.clone(), vec![0]].concat()));
            all.push(("doubled".into(), [m.clone(), m.clone()].concat()));
            for i in places(n) {
                let mut x = m.clone();
                x[i] ^= 0x40;
                all.push((format!("byte {i}"), x));
            }
            let mut seen: HashMap<Vec<u8>, String> = HashMap::new();
            for (w, x) in &all {
                ctx.eval();
                let case = || json!({"key": name, "len": n, "message": w});
                let Some(Ok(sig)) = ctx.nopanic("sign-panic", case, || e.sign(x)) else {
                    ctx.fail("sign-error", "signing a long message failed", case());
                    continue;
                };
                ctx.nontriv();
                if let Some(o) = seen.insert(sig[..32].to_vec(), w.clone()) {
                    ctx.fail("nonce-reuse-long", "two different long messages share the per-signature secret", json!({"key": name, "len": n, "message": w, "other": o}));
                }
            }
        }
    });
    // the same private key used through different construction paths: nonces for different messages must differ
    for (_, v) in by_secret {
        let mut m: HashMap<B32, usize> = HashMap::new();
        for (_, mi, r) in v {
            ctx.eval();
            if let Some(o) = m.insert(to32(&r), mi) {
                ctx.check(o == mi, "nonce-cross-path", "different messages share a nonce across construction paths", || json!({"msg_a": o, "msg_b": mi}));
            }
        }
    }
    ctx.bound(format!("{} signing keys over 8 construction paths x {} messages; 400 nonce derivations from public data per signature; all signature pairs; long messages of {} sizes up to {}, altered around every power of two", keys.len(), msgs.len(), ls.len(), ls.last().unwrap()));
    0
}

/// Reference Schnorr relation over Z_Q: the challenge the crate documents, H(R || A || m) as a scalar.
fn toy_h<const Q: u64>(r: u64, a: u64, m: &[u8]) -> u64 {
    let b = h512(&[&r.to_le_bytes(), &a.to_le_bytes(), m]);
    let mut x = 0u64;
    for c in b.iter().rev() {
        x = addq(mulq(x, 256 % Q, Q), *c as u64 % Q, Q);
    }
    x
}
fn schnorr_small<const Q: u64>(ctx: &Ctx, msgs: &[&[u8]]) {
    let g = Toy::<Q>;
    par(Q as usize, |x| {
        let x = x as u64;
        let a = TP::<Q>(x);
        for m in msgs {
            // the full verification relation
            for r in 0..Q {
                let want_s = addq(r, mulq(toy_h::<Q>(r, x, m), x, Q), Q);
                for s in 0..Q {
                    ctx.eval();
                    let mut sig = r.to_le_bytes().to_vec();
                    sig.extend(s.to_le_bytes());
                    let want = r != 0 && x != 0 && s == want_s;
                    let got = guard(|| schnorr::verify(g, &a, m, &sig).is_ok());
                    if want {
                        ctx.nontriv();
                    }
                    ctx.check(got == Ok(want), if want { "small-complete" } else { "small-sound" }, "verdict differs from the verification relation", || json!({"q": Q, "key": x, "R": r, "s": s, "msg": hex::encode(m), "want": want}));
                }
            }
            // every answer of the random source: the signature is the one for that nonce and verifies
            let mut seen = vec![0u64; Q as usize];
            for k in 0..Q {
                ctx.eval();
                script_rng(vec![k]);
                let Ok(Ok(sig)) = guard(|| schnorr::sign(&g, &TS::<Q>(x), m)) else {
                    ctx.fail("small-sign", "signing failed", json!({"q": Q, "key": x, "k": k}));
                    continue;
                };
                let r = u64::from_le_bytes(sig[..8].try_into().unwrap());
                seen[r as usize] += 1;
                let s = u64::from_le_bytes(sig[8..16].try_into().unwrap());
                ctx.check(sig.len() == 16 && s == addq(r, mulq(toy_h::<Q>(r, x, m), x, Q), Q), "small-sign-eq", "signature does not satisfy the relation", || json!({"q": Q, "key": x, "k": k}));
                if r != 0 && x != 0 {
                    ctx.check(schnorr::verify(g, &a, m, &sig).is_ok(), "small-own", "own signature refused", || json!({"q": Q, "key": x, "k": k}));
                }
            }
            ctx.check(seen.iter().all(|n| *n == 1), "nonce-uniform", "the nonce is not the fresh random answer", || json!({"q": Q, "key": x, "counts": format!("{seen:?}")}));
        }
        // two signatures in a row: independent nonces (joint distribution)
        let mut pairs = HashSet::new();
        for k1 in 0..Q {
            for k2 in 0..Q {
                ctx.eval();
                script_rng(vec![k1, k2]);
                let s1 = schnorr::sign(&g, &TS::<Q>(x), msgs[0]);
                let s2 = schnorr::sign(&g, &TS::<Q>(x), msgs[0]);
                if let (Ok(s1), Ok(s2)) = (s1, s2) {
                    pairs.insert((s1[..8].to_vec(), s2[..8].to_vec()));
                }
            }
        }
        ctx.check(pairs.len() as u64 == Q * Q, "nonce-independent", "successive nonces are not independent", || json!({"q": Q, "key": x, "pairs": pairs.len()}));
    });
    // malformed encodings
    let x = 3u64;
    for r in [Q, Q + 1, u64::MAX, 1 << 63] {
        for s in [0, 1, Q, Q + 1, u64::MAX] {
            for (rr, ss) in [(r, s), (s, r)] {
                if rr < Q && ss < Q {
                    continue;
                }
                ctx.eval();
                let mut sig = rr.to_le_bytes().to_vec();
                sig.extend(ss.to_le_bytes());
                ctx.check(guard(|| schnorr::verify(g, &TP(x), msgs[0], &sig).is_ok()) == Ok(false), "small-noncanonical", "non-canonical component accepted", || json!({"q": Q, "R": rr, "s": ss}));
            }
        }
    }
    // s + Q for a valid s
    script_rng(vec![1]);
    let sig = schnorr::sign(&g, &TS::<Q>(x), msgs[0]).unwrap();
    let s = u64::from_le_bytes(sig[8..].try_into().unwrap());
    for k in 1..10u64 {
        let mut z = sig.clone();
        z[8..].copy_from_slice(&(s + k * Q).to_le_bytes());
        ctx.eval();
        ctx.check(guard(|| schnorr::verify(g, &TP(x), msgs[0], &z).is_ok()) == Ok(false), "small-malleable", "s + kq accepted", || json!({"q": Q, "k": k}));
    }
    for n in 0..=40usize {
        let mut z = sig.clone();
        z.resize(n, 0);
        ctx.eval();
        let r = guard(|| schnorr::verify(g, &TP(x), msgs[0], &z).is_ok());
        ctx.check(r == Ok(n == 16), "small-len", "wrong signature length", || json!({"q": Q, "len": n}));
    }
}

pub fn c12(ctx: &Ctx) -> i32 {
    schnorr_small::<5>(ctx, &[b"", b"a", b"m1", b"message"]);
    schnorr_small::<11>(ctx, &[b"", b"a", b"m1", b"message"]);
    schnorr_small::<31>(ctx, &[b"", b"a"]);
    if ctx.thorough() {
        schnorr_small::<101>(ctx, &[b"", b"a", b"b"]);
        schnorr_small::<211>(ctx, &[b"a"]);
    } else {
        schnorr_small::<101>(ctx, &[b"a"]);
    }
    ctx.bound("verification relation: every (key, R, s) over Z_5, Z_11, Z_31, Z_101 (Z_211); every nonce answer; every pair of successive nonce answers");
    let bt = Table::new(Rp::base());
    let su = suite();
    let l = order();
    // completeness on Ed25519 with every verifier, both groups
    let mut keys = vec![su.scalar().set_int64(1), su.scalar().set_int64(2), su.scalar().set_int64(-1), sc(&to32(&((BigUint::from(1u8) << 252usize) + BigUint::from(1u8))))];
    for i in 0..ctx.pick(3u8, 10) {
        keys.push(Curve::new().new_key_and_seed_with_input(&[i; 32]).0);
    }
    par_items(&keys, |k| {
        let pk = penc(&su.point().mul(k, None));
        let secret = from32(&k.v) % &l;
        for n in 0..=ctx.pick(140usize, 400) {
            let m = pat(n, 1);
            let case = || json!({"key": hex::encode(k.v), "len": n});
            let sigs = [guard(|| schnorr::sign(&su, k, &m)), guard(|| schnorr::sign(&su, k, &m))];
            let mut rs = vec![];
            for s in sigs {
                ctx.eval();
                let Ok(Ok(s)) = s else {
                    ctx.fail("sign", "signing failed", case());
                    continue;
                };
                ctx.nontriv();
                ctx.check(s.len() == 64, "sig-size", "signature is not R || s", case);
                for (n, v) in VERS {
                    ctx.check(matches!(guard(|| v(&pk, &m, &s)), Ok(Some(true))), &format!("complete-{n}"), "genuine signature refused", case);
                }
                let rb: B32 = s[..32].try_into().unwrap();
                let h = modl(&h512(&[&rb, &pk, &m]));
                let r = (from32(&s[32..]) + &l * &l - &h * &secret) % &l;
                ctx.check(bt.mul(&to32(&r)).enc() == rb, "equation", "does not satisfy the EdDSA equation", case);
                ctx.check(r.bits() > 190 && (&l - &r).bits() > 190, "nonce-small", "nonce is a small number", case);
                for pre in [&b""[..], &pk[..], &k.v[..]] {
                    ctx.check(modl(&h512(&[pre, &m])) != r, "nonce-derived", "nonce is a fixed function of the message", case);
                }
                rs.push(r);
            }
            ctx.check(rs.len() == 2 && rs[0] != rs[1], "nonce-repeat", "two signatures share a nonce", case);
        }
    });
    long_messages(ctx, &|m| schnorr::sign(&su, &keys[4], m).map_err(|e| format!("{e:?}")), &penc(&su.point().mul(&keys[4], None)), &VERS[2..]);
    // faults
    let fm: Vec<usize> = if ctx.thorough() { (0..=60).collect() } else { vec![0, 1, 17, 64] };
    par_items(&fm, |&n| {
        for k in keys.iter().skip(2).take(2) {
            let pk = penc(&su.point().mul(k, None));
            let m = pat(n, 5);
            let s = schnorr::sign(&su, k, &m).unwrap();
            for (nm, v) in &VERS[2..] {
                faults(ctx, nm, &pk, &m, &s, v);
            }
            for o in &keys {
                if o != k {
                    ctx.eval();
                    let p2 = penc(&su.point().mul(o, None));
                    ctx.check(matches!(guard(|| schnorr_suite(&p2, &m, &s)), Ok(Some(false))), "other-key", "verifies under another key", || json!({"key": hex::encode(k.v), "other": hex::encode(o.v)}));
                }
            }
        }
    });
    let cr = crafted(&bt, ctx.pick(3, 12));
    par_items(&cr, |(lab, pk, m, s)| {
        for (n, v) in &VERS[2..] {
            ctx.eval();
            ctx.nontriv();
            let case = || json!({"verifier": n, "kind": lab, "key": hex::encode(pk), "msg": hex::encode(m), "sig": hex::encode(s)});
            match guard(|| v(pk, m, s)) {
                Err(p) => ctx.fail(&format!("{n}-crafted-panic"), p, case()),
                Ok(Some(true)) => {
                    let kind: String = lab.chars().take_while(|c| *c != '-').collect();
                    ctx.fail(&format!("{n}-accepts-{kind}"), format!("malleable, small-order or non-canonical signature accepted ({lab})"), case())
                }
                _ => {}
            }
        }
    });
    // the neutral element and never-initialised points as keys
    for p in [su.point(), su.point().null()] {
        ctx.eval();
        let r = guard(|| schnorr::verify(su, &p, b"m", &[0u8; 64]).is_ok());
        ctx.check(r == Ok(false), "null-key", "null key accepted or crash", || json!({}));
    }
    let _ = su.point().marshal_size();
    0
}
