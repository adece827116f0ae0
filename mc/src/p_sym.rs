//! C21 key agreement / AEAD, C22 ECIES, C23 extendable-output stream, C24 randomness helpers.
use crate::engine::*;
use crate::p_point::suite;
use crate::refcurve::Rp;
use crate::toy::*;
use aes_gcm::aead::AeadInPlace;
use aes_gcm::{Aes256Gcm, KeyInit};
use kyber_rs::cipher::{Stream, StreamError};
use kyber_rs::dh::{Dh, AEAD};
use kyber_rs::encoding::BinaryMarshaler;
use kyber_rs::encrypt::ecies;
use kyber_rs::group::edwards25519::{Curve, SuiteEd25519};
use kyber_rs::util::random::{bits, bytes, random_int};
use kyber_rs::util::random::RandStream;
use kyber_rs::{Group, Point, Scalar, XOFFactory, XOF};
use num_bigint_dig::{BigInt, BigUint, Sign};
use serde_json::json;
use sha2::{Digest, Sha256};
use num_traits::Zero;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{Read, Write};

// ---------------------------------------------------------------- reference HKDF / GCM

fn hmac256(key: &[u8], parts: &[&[u8]]) -> Vec<u8> {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&Sha256::digest(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut h = Sha256::new();
    h.update(k.iter().map(|b| b ^ 0x36).collect::<Vec<_>>());
    for p in parts {
        h.update(p);
    }
    let inner = h.finalize();
    let mut h = Sha256::new();
    h.update(k.iter().map(|b| b ^ 0x5c).collect::<Vec<_>>());
    h.update(inner);
    h.finalize().to_vec()
}
/// RFC 5869 with an empty salt
fn ref_hkdf(ikm: &[u8], info: &[u8], n: usize) -> Vec<u8> {
    let prk = hmac256(&[0u8; 32], &[ikm]);
    let mut out = vec![];
    let mut t: Vec<u8> = vec![];
    let mut i = 1u8;
    while out.len() < n {
        t = hmac256(&prk, &[&t, info, &[i]]);
        out.extend_from_slice(&t);
        i = i.wrapping_add(1);
    }
    out.truncate(n);
    out
}
fn ref_seal(key: &[u8], nonce: &[u8; 12], pt: &[u8], ad: &[u8]) -> Vec<u8> {
    let c = Aes256Gcm::new(key.into());
    let mut b = pt.to_vec();
    let tag = c.encrypt_in_place_detached(nonce.into(), ad, &mut b).unwrap();
    b.extend_from_slice(&tag);
    b
}
fn pat(n: usize, k: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(k)).collect()
}

pub fn c21(ctx: &Ctx) -> i32 {
    type S = SuiteEd25519;
    // --- key agreement
    fn agree<const Q: u64>(ctx: &Ctx) {
        for a in 0..Q {
            for b in 0..Q {
                ctx.eval();
                let s = Toy::<Q>;
                let pa = s.point().mul(&TS(a), None);
                let pb = s.point().mul(&TS(b), None);
                let k1 = <Toy<Q> as Dh>::dh_exchange(s, TS(a), pb);
                let k2 = <Toy<Q> as Dh>::dh_exchange(s, TS(b), pa);
                ctx.check(k1 == k2 && k1.0 == mulq(a, b, Q), "dh-agree", "the two sides disagree or the key is not ab*G", || json!({"q": Q, "a": a, "b": b}));
                if a * b % Q != 0 {
                    ctx.nontriv();
                }
            }
        }
    }
    agree::<2>(ctx);
    agree::<11>(ctx);
    agree::<101>(ctx);
    {
        let su = suite();
        let mut ks = vec![];
        for i in [0i64, 1, 2, 3, 8, 255, -1, -2, i64::MAX, i64::MIN + 1] {
            ks.push(su.scalar().set_int64(i));
        }
        for i in 0..ctx.pick(6, 30) {
            let (k, _, _) = Curve::new().new_key_and_seed_with_input(&[i as u8; 32]);
            ks.push(k);
        }
        for a in &ks {
            for b in &ks {
                ctx.eval();
                ctx.nontriv();
                let pa = su.point().mul(a, None);
                let pb = su.point().mul(b, None);
                let k1 = S::dh_exchange(su, *a, pb);
                let k2 = S::dh_exchange(su, *b, pa);
                let k3 = su.point().mul(&(*a * *b), None);
                ctx.check(k1 == k2 && k1 == k3, "dh-agree", "Ed25519 agreement differs", || json!({"a": a.to_string(), "b": b.to_string()}));
            }
        }
    }
    ctx.bound("agreement: all key pairs over Z_2, Z_11, Z_101 and all pairs of 16 (40) Ed25519 keys");
    // --- HKDF
    for ikm_len in [0usize, 1, 8, 31, 32, 33, 63, 64, 65, 100] {
        for info_len in [0usize, 1, 32, 64, 65] {
            let (ikm, info) = (pat(ikm_len, 3), pat(info_len, 7));
            for n in (0..=130usize).chain([255, 256, 1024, 8159, 8160]) {
                ctx.eval();
                ctx.nontriv();
                let g = ctx.nopanic("hkdf-panic", || json!({"ikm": ikm_len, "info": info_len, "n": n}), || S::hkdf(&ikm, &info, Some(n)));
                if let Some(r) = g {
                    ctx.check(matches!(&r, Ok(v) if *v == ref_hkdf(&ikm, &info, n)), "hkdf-value", "differs from RFC 5869", || json!({"ikm": ikm_len, "info": info_len, "n": n}));
                }
            }
            for n in [8161usize, 10000, 65536] {
                ctx.eval();
                if let Some(r) = ctx.nopanic("hkdf-panic", || json!({"n": n}), || S::hkdf(&ikm, &info, Some(n))) {
                    ctx.check(r.is_err(), "hkdf-too-long", "an output longer than 255 blocks must be refused", || json!({"n": n}));
                }
            }
            ctx.eval();
            ctx.check(matches!(S::hkdf(&ikm, &info, None), Ok(v) if v == ref_hkdf(&ikm, &info, 32)), "hkdf-default", "default size is 32", || json!({}));
        }
    }
    // --- AES-GCM wrapper: round trip and reference for all lengths
    let maxl = ctx.pick(70usize, 300);
    let key = pat(32, 9);
    let nonce: [u8; 12] = pat(12, 77).try_into().unwrap();
    par(maxl + 1, |l| {
        for al in (0..=33usize).chain([47, 48, 49, 63, 64, 65, 100, 255, 256]) {
            for none in [false, true] {
                if none && al != 0 {
                    continue;
                }
                ctx.eval();
                ctx.nontriv();
                let pt = pat(l, 1);
                let ad = pat(al, 2);
                let adp: Option<&[u8]> = if none { None } else { Some(&ad) };
                let case = || json!({"pt": l, "ad": al, "none": none});
                let Some(r) = ctx.nopanic("aes-panic", case, || S::aes_encrypt(&key, &nonce, &pt, adp)) else { continue };
                let Ok(c) = r else {
                    ctx.fail("aes-enc-err", "sealing failed", case());
                    continue;
                };
                ctx.check(c == ref_seal(&key, &nonce, &pt, &ad), "aes-ref", "ciphertext differs from AES-256-GCM", case);
                let d = S::aes_decrypt(&key, &nonce, &c, adp);
                ctx.check(matches!(&d, Ok(p) if *p == pt), "aes-round", "does not open to the original", case);
            }
        }
    });
    ctx.bound(format!("AEAD: plaintext lengths 0..={maxl} x 43 additional-data lengths (and absent)"));
    // --- long plaintexts, additional data and contexts
    {
        let su = suite();
        let pre = su.point().mul(&su.scalar().set_int64(777), None);
        let mut sizes = vec![];
        for l in widths(7, ctx.pick(17, 21)) {
            sizes.extend([(l, 5usize, 5usize), (5, l, 5), (5, 5, l)]);
        }
        par_items(&sizes, |&(pl, al, il)| {
            let (pt, ad, info) = (pat(pl, 1), pat(al, 2), pat(il, 3));
            let case = |w: &str, at: usize| json!({"plaintext": pl, "additional": al, "context": il, "fault": w, "at": at});
            let k = ref_hkdf(&pre.marshal_binary().unwrap(), &info, 32);
            ctx.eval();
            ctx.nontriv();
            let Some((aead, c)) = ctx.nopanic(
                "long-panic",
                || case("none", 0),
                || {
                    let a = AEAD::<S>::new(pre, &info).unwrap();
                    let c = a.seal(None, &nonce, &pt, Some(&ad)).unwrap();
                    (a, c)
                },
            ) else {
                return;
            };
            ctx.check(c == ref_seal(&k, &nonce, &pt, &ad), "long-ref", "AEAD differs from HKDF+AES-GCM", || case("none", 0));
            ctx.check(matches!(aead.open(None, &nonce, &c, Some(&ad)), Ok(p) if p == pt), "long-round", "does not open", || case("none", 0));
            let e = S::encrypt(&pre, &info, &nonce, &pt).unwrap();
            ctx.check(e == ref_seal(&k, &nonce, &pt, &info), "long-dh-ref", "encrypt authenticates the context", || case("none", 0));
            ctx.check(matches!(S::decrypt(&pre, &info, &nonce, &e), Ok(p) if p == pt), "long-dh-round", "decrypt(encrypt)", || case("none", 0));
            let refuse = |w: &str, at: usize, r: Result<bool, String>| {
                ctx.eval();
                ctx.check(r == Ok(true), &format!("long-accepts-{w}"), "a tampered combination opened (or crash)", || case(w, at));
            };
            let flip = |b: &[u8], i: usize| {
                let mut x = b.to_vec();
                x[i] ^= 4;
                x
            };
            for i in places(c.len()) {
                refuse("cipher", i, guard(|| aead.open(None, &nonce, &flip(&c, i), Some(&ad)).is_err()));
            }
            for i in places(al) {
                refuse("additional", i, guard(|| aead.open(None, &nonce, &c, Some(&flip(&ad, i))).is_err()));
            }
            for i in places(il) {
                let x = flip(&info, i);
                refuse("context", i, guard(|| AEAD::<S>::new(pre, &x).unwrap().open(None, &nonce, &c, Some(&ad)).is_err()));
                refuse("dh-context", i, guard(|| S::decrypt(&pre, &x, &nonce, &e).is_err()));
            }
            for (w, n) in [("cut-cipher", c.len() - 1), ("half-cipher", c.len() / 2)] {
                refuse(w, n, guard(|| aead.open(None, &nonce, &c[..n], Some(&ad)).is_err()));
            }
            for n in [al - 1, al / 2, 0] {
                refuse("cut-additional", n, guard(|| aead.open(None, &nonce, &c, Some(&ad[..n])).is_err()));
            }
            for n in [il - 1, il / 2, 0] {
                refuse("cut-context", n, guard(|| AEAD::<S>::new(pre, &info[..n]).unwrap().open(None, &nonce, &c, Some(&ad)).is_err()));
            }
        });
        ctx.bound(format!("long inputs: {} combinations of plaintext, additional data and context sizes around the powers of two up to 2^{}, altered around every power of two from both ends", sizes.len(), ctx.pick(17, 21)));
    }
    // key lengths
    for kl in 0..=70usize {
        ctx.eval();
        let k = pat(kl, 5);
        let r = ctx.nopanic("aes-keylen-panic", || json!({"keylen": kl}), || (S::aes_encrypt(&k, &nonce, b"x", None), S::aes_decrypt(&k, &nonce, &[0u8; 20], None)));
        if let Some((e, d)) = r {
            ctx.check(e.is_ok() == (kl == 32) && d.is_err(), "aes-keylen", "exactly 32-byte keys are usable", || json!({"keylen": kl}));
        }
    }
    // --- single faults and truncations through all three interfaces
    let su = suite();
    let pre = su.point().mul(&su.scalar().set_int64(12345), None);
    let pre2 = su.point().mul(&su.scalar().set_int64(12346), None);
    let lens: Vec<usize> = if ctx.thorough() { (0..=140).collect() } else { (0..=34).collect() };
    par_items(&lens, |&l| {
        let pt = pat(l, 4);
        for al in [None, Some(0usize), Some(1), Some(16), Some(33)] {
            let ad = al.map(|n| pat(n, 6));
            let adp = ad.as_deref();
            let info = pat(20, 8);
            let aead = AEAD::<S>::new(pre, &info).unwrap();
            let case = |w: &str, i: usize| json!({"pt": l, "ad": al, "fault": w, "at": i});
            let c = aead.seal(None, &nonce, &pt, adp).unwrap();
            let k = ref_hkdf(&pre.marshal_binary().unwrap(), &info, 32);
            ctx.eval();
            ctx.check(c == ref_seal(&k, &nonce, &pt, adp.unwrap_or(&[])), "aead-ref", "AEAD differs from HKDF+AES-GCM", || case("none", 0));
            ctx.check(matches!(aead.open(None, &nonce, &c, adp), Ok(p) if p == pt), "aead-round", "does not open", || case("none", 0));
            // destination buffers of every length: never a crash; where it fits it holds the result
            for dl in 0..=(c.len() + 3) {
                ctx.eval();
                ctx.nontriv();
                let mut d = vec![0xAAu8; dl];
                if let Some(r) = ctx.nopanic("aead-dst-panic", || case("seal-dst", dl), || aead.seal(Some(&mut d), &nonce, &pt, adp)) {
                    ctx.check(matches!(&r, Ok(v) if *v == c), "aead-dst", "seal with destination returns the ciphertext", || case("seal-dst", dl));
                    if dl >= c.len() {
                        ctx.check(d[..c.len()] == c[..] && d[c.len()..].iter().all(|b| *b == 0xAA), "aead-dst-content", "destination content", || case("seal-dst", dl));
                    }
                }
                let mut d = vec![0xAAu8; dl];
                if let Some(r) = ctx.nopanic("aead-dst-panic", || case("open-dst", dl), || aead.open(Some(&mut d), &nonce, &c, adp)) {
                    ctx.check(matches!(&r, Ok(v) if *v == pt), "aead-dst", "open with destination returns the plaintext", || case("open-dst", dl));
                    if dl >= pt.len() {
                        ctx.check(d[..pt.len()] == pt[..] && d[pt.len()..].iter().all(|b| *b == 0xAA), "aead-dst-content", "destination content", || case("open-dst", dl));
                    }
                }
            }
            let refuse = |w: &str, i: usize, r: Result<Result<Vec<u8>, String>, String>| {
                ctx.eval();
                ctx.nontriv();
                match r {
                    Err(p) => ctx.fail("aead-fault-panic", p, case(w, i)),
                    Ok(Ok(_)) => ctx.fail(&format!("aead-accepts-{w}"), "a tampered combination opened", case(w, i)),
                    Ok(Err(_)) => {}
                }
            };
            for bit in 0..c.len() * 8 {
                let mut x = c.clone();
                x[bit / 8] ^= 1 << (bit % 8);
                refuse("cipher-bit", bit, guard(|| aead.open(None, &nonce, &x, adp).map_err(|e| e.to_string())));
            }
            for n in 0..c.len() {
                refuse("truncated", n, guard(|| aead.open(None, &nonce, &c[..n], adp).map_err(|e| e.to_string())));
            }
            for n in 1..20 {
                let mut x = c.clone();
                x.extend(vec![0u8; n]);
                refuse("extended", n, guard(|| aead.open(None, &nonce, &x, adp).map_err(|e| e.to_string())));
            }
            for bit in 0..96 {
                let mut x = nonce;
                x[bit / 8] ^= 1 << (bit % 8);
                refuse("nonce-bit", bit, guard(|| aead.open(None, &x, &c, adp).map_err(|e| e.to_string())));
            }
            if let Some(a) = &ad {
                for bit in 0..a.len() * 8 {
                    let mut x = a.clone();
                    x[bit / 8] ^= 1 << (bit % 8);
                    refuse("ad-bit", bit, guard(|| aead.open(None, &nonce, &c, Some(&x)).map_err(|e| e.to_string())));
                }
                for n in 0..a.len() {
                    refuse("ad-trunc", n, guard(|| aead.open(None, &nonce, &c, Some(&a[..n])).map_err(|e| e.to_string())));
                }
            }
            if al.unwrap_or(0) != 0 {
                refuse("ad-absent", 0, guard(|| aead.open(None, &nonce, &c, None).map_err(|e| e.to_string())));
            }
            let mut x = ad.clone().unwrap_or_default();
            x.push(0);
            refuse("ad-ext", 0, guard(|| aead.open(None, &nonce, &c, Some(&x)).map_err(|e| e.to_string())));
            // key and context
            let other = AEAD::<S>::new(pre2, &info).unwrap();
            refuse("other-key", 0, guard(|| other.open(None, &nonce, &c, adp).map_err(|e| e.to_string())));
            for bit in 0..info.len() * 8 {
                let mut x = info.clone();
                x[bit / 8] ^= 1 << (bit % 8);
                let o = AEAD::<S>::new(pre, &x).unwrap();
                refuse("context-bit", bit, guard(|| o.open(None, &nonce, &c, adp).map_err(|e| e.to_string())));
            }
            for n in 0..info.len() {
                let o = AEAD::<S>::new(pre, &info[..n]).unwrap();
                refuse("context-trunc", n, guard(|| o.open(None, &nonce, &c, adp).map_err(|e| e.to_string())));
            }
            let rawc = S::aes_encrypt(&key, &nonce, &pt, adp).unwrap();
            for bit in 0..256 {
                let mut x = key.clone();
                x[bit / 8] ^= 1 << (bit % 8);
                refuse("key-bit", bit, guard(|| S::aes_decrypt(&x, &nonce, &rawc, adp).map_err(|e| e.to_string())));
            }
            // encrypt/decrypt with a pre-shared point: the context is also the additional data
            let e = S::encrypt(&pre, &info, &nonce, &pt).unwrap();
            ctx.eval();
            ctx.check(matches!(S::decrypt(&pre, &info, &nonce, &e), Ok(p) if p == pt), "dh-round", "decrypt(encrypt)", || case("none", 0));
            ctx.check(e == ref_seal(&k, &nonce, &pt, &info), "dh-ref", "encrypt authenticates the context", || case("none", 0));
            refuse("dh-other-key", 0, guard(|| S::decrypt(&pre2, &info, &nonce, &e).map_err(|e| e.to_string())));
            for bit in 0..info.len() * 8 {
                let mut x = info.clone();
                x[bit / 8] ^= 1 << (bit % 8);
                refuse("dh-context", bit, guard(|| S::decrypt(&pre, &x, &nonce, &e).map_err(|e| e.to_string())));
            }
            for bit in 0..e.len() * 8 {
                let mut x = e.clone();
                x[bit / 8] ^= 1 << (bit % 8);
                refuse("dh-cipher", bit, guard(|| S::decrypt(&pre, &info, &nonce, &x).map_err(|e| e.to_string())));
            }
            for bit in 0..96 {
                let mut x = nonce;
                x[bit / 8] ^= 1 << (bit % 8);
                refuse("dh-nonce", bit, guard(|| S::decrypt(&pre, &info, &x, &e).map_err(|e| e.to_string())));
            }
        }
    });
    ctx.bound("faults: every bit of ciphertext, nonce, key, additional data and context, every truncation, 19 extensions, every destination length");
    0
}

// ---------------------------------------------------------------- C22

pub fn c22(ctx: &Ctx) -> i32 {
    let su = suite();
    let maxl = ctx.pick(200usize, 1100);
    let (priv_k, _, _) = Curve::new().new_key_and_seed_with_input(&[7u8; 32]);
    let keys: Vec<_> = vec![su.scalar().set_int64(1), su.scalar().set_int64(-1), priv_k];
    par(maxl + 1, |l| {
        let m = pat(l, 11);
        for (ki, k) in keys.iter().enumerate() {
            let p = su.point().mul(k, None);
            ctx.eval();
            ctx.nontriv();
            let case = || json!({"len": l, "key": ki});
            let Some(r) = ctx.nopanic("encrypt-panic", case, || ecies::encrypt(su, p, &m)) else { continue };
            let Ok(c) = r else {
                ctx.fail("encrypt-err", "encryption refused", case());
                continue;
            };
            let Some(d) = ctx.nopanic("decrypt-panic", case, || ecies::decrypt(su, *k, &c)) else { continue };
            ctx.check(matches!(&d, Ok(x) if *x == m), "round", "decrypt(encrypt) differs", case);
            if l >= 16 {
                ctx.check(!c.windows(16).any(|w| w == &m[..16]), "plaintext-visible", "plaintext appears in the ciphertext", case);
            }
        }
    });
    ctx.bound(format!("round trip: all lengths 0..={maxl} x 3 keys"));
    {
        let k = keys[2];
        let p = su.point().mul(&k, None);
        let ls = widths(8, ctx.pick(17, 22));
        par_items(&ls, |&l| {
            let m = pat(l, 21);
            let case = |w: &str, at: usize| json!({"len": l, "fault": w, "at": at});
            ctx.eval();
            ctx.nontriv();
            let Some(Ok(c)) = ctx.nopanic("long-encrypt-panic", || case("none", 0), || ecies::encrypt(su, p, &m)) else {
                ctx.fail("long-encrypt", "encryption refused", case("none", 0));
                return;
            };
            let d = ctx.nopanic("long-decrypt-panic", || case("none", 0), || ecies::decrypt(su, k, &c));
            ctx.check(matches!(&d, Some(Ok(x)) if *x == m), "long-round", "decrypt(encrypt) differs", || case("none", 0));
            let ws: HashSet<&[u8]> = c.windows(16).collect();
            ctx.check(!m.windows(16).any(|w| ws.contains(w)), "long-visible", "plaintext appears in the ciphertext", || case("none", 0));
            if let Some(Ok(z)) = ctx.nopanic("long-encrypt-panic", || case("zeros", 0), || ecies::encrypt(su, p, &vec![0u8; l])) {
                let mut seen = HashSet::new();
                ctx.check(z.windows(16).all(|w| seen.insert(w)), "long-repeats", "the encryption of a constant message repeats itself", || case("zeros", 0));
            }
            let try_ = |w: &str, at: usize, x: &[u8]| {
                ctx.eval();
                if let Some(r) = ctx.nopanic(&format!("long-decrypt-panic-{w}"), || case(w, at), || ecies::decrypt(su, k, x)) {
                    ctx.check(r.is_err(), &format!("long-accepts-{w}"), "tampered ciphertext decrypted", || case(w, at));
                }
            };
            for i in places(c.len()) {
                let mut x = c.clone();
                x[i] ^= 8;
                try_("byte", i, &x);
            }
            for n in [c.len() - 1, c.len() - 16, c.len() / 2, 40] {
                try_("cut", n, &c[..n]);
            }
            let mut x = c.clone();
            x.push(0);
            try_("extended", 1, &x);
        });
        ctx.bound(format!("long messages: {} sizes around the powers of two up to {}, altered around every power of two from both ends", ls.len(), ls.last().unwrap()));
    }
    // the same, over curve group alone and over small groups, every other key refused
    fn small<const Q: u64>(ctx: &Ctx) {
        for x in 0..Q {
            let s = Toy::<Q>;
            let p = s.point().mul(&TS(x), None);
            for l in [0usize, 1, 17] {
                let m = pat(l, x as u8);
                let mut c = vec![];
                for _ in 0..200 {
                    c = match guard(|| ecies::encrypt(s, p, &m)) {
                        Ok(Ok(c)) => c,
                        _ => {
                            ctx.fail("encrypt-small", "encryption failed", json!({"q": Q, "x": x, "l": l}));
                            return;
                        }
                    };
                    if c[..8] != [0u8; 8] {
                        break;
                    }
                }
                for y in 0..Q {
                    ctx.eval();
                    let case = || json!({"q": Q, "key": x, "tried": y, "len": l});
                    let Some(d) = ctx.nopanic("decrypt-panic", case, || ecies::decrypt(s, TS(y), &c)) else { continue };
                    if y == x {
                        ctx.nontriv();
                        ctx.check(matches!(&d, Ok(v) if *v == m), "round-small", "owner cannot decrypt", case);
                    } else {
                        ctx.check(d.is_err(), "other-key", "another key decrypts", case);
                    }
                }
            }
        }
    }
    small::<11>(ctx);
    small::<101>(ctx);
    ctx.bound("all keys x all tried keys over Z_11 and Z_101");
    // faults
    let k = keys[2];
    let p = su.point().mul(&k, None);
    let lens: Vec<usize> = if ctx.thorough() { (0..=200).collect() } else { (0..=33).collect() };
    let t8: Vec<Vec<u8>> = crate::refcurve::torsion().iter().map(|t| t.enc().to_vec()).collect();
    par_items(&lens, |&l| {
        let m = pat(l, 3);
        let c = ecies::encrypt(su, p, &m).unwrap();
        let c2 = ecies::encrypt(su, p, &m).unwrap();
        let try_ = |w: &str, at: usize, x: &[u8]| {
            ctx.eval();
            ctx.nontriv();
            let case = || json!({"len": l, "fault": w, "at": at, "ctx": hex::encode(x)});
            if let Some(r) = ctx.nopanic(&format!("decrypt-panic-{w}"), case, || ecies::decrypt(su, k, x)) {
                ctx.check(r.is_err(), &format!("accepts-{w}"), "tampered ciphertext decrypted", case);
            }
        };
        for n in 0..c.len() {
            try_("truncated", n, &c[..n]);
            try_("suffix", n, &c[n + 1..]);
        }
        for n in 1..=40 {
            let mut x = c.clone();
            x.extend(vec![0u8; n]);
            try_("extended", n, &x);
            let mut x = vec![0u8; n];
            x.extend(&c);
            try_("prefixed", n, &x);
        }
        for bit in 0..c.len() * 8 {
            let mut x = c.clone();
            x[bit / 8] ^= 1 << (bit % 8);
            try_("bit", bit, &x);
        }
        for i in 0..c.len() {
            for v in [0u8, 0xff, 0x80, 0x7f] {
                if c[i] != v {
                    let mut x = c.clone();
                    x[i] = v;
                    try_("byte", i, &x);
                }
            }
            let mut x = c.clone();
            x.remove(i);
            if x != c[..c.len() - 1] {
                try_("deleted", i, &x);
            }
        }
        // the ephemeral point replaced by every small-order point, shifted by torsion, negated, or by another one
        for (i, t) in t8.iter().enumerate() {
            let mut x = t.clone();
            x.extend(&c[32..]);
            try_("torsion", i, &x);
            let mut r: [u8; 32] = [0; 32];
            r.copy_from_slice(&c[..32]);
            if i > 0 {
                let sum = Rp::dec(&r).unwrap().add(crate::refcurve::torsion()[i]);
                let mut x = sum.enc().to_vec();
                x.extend(&c[32..]);
                try_("shifted", i, &x);
            }
        }
        let mut x = c2[..32].to_vec();
        x.extend(&c[32..]);
        try_("spliced", 0, &x);
        let mut x = c[..c.len() - 16].to_vec();
        x.extend(&c2[c2.len() - 16..]);
        try_("tag-spliced", 0, &x);
        // freshness
        ctx.eval();
        let w1: HashSet<&[u8]> = c.windows(8).collect();
        ctx.check(c2.windows(8).all(|w| !w1.contains(w)), "fresh", "two encryptions share material", || json!({"len": l, "a": hex::encode(&c), "b": hex::encode(&c2)}));
        // other keys
        for (i, o) in [su.scalar().set_int64(0), su.scalar().set_int64(1), k + su.scalar().set_int64(1), su.scalar().neg(&k), k + k].iter().enumerate() {
            ctx.eval();
            let case = || json!({"len": l, "otherkey": i});
            if let Some(r) = ctx.nopanic("decrypt-panic-otherkey", case, || ecies::decrypt(su, *o, &c)) {
                ctx.check(r.is_err(), "other-key", "another key decrypts", case);
            }
        }
    });
    // many encryptions: all ephemeral points distinct, all decrypt
    let n = ctx.pick(300usize, 5000);
    let seen = std::sync::Mutex::new(HashSet::new());
    par(n, |i| {
        let c = ecies::encrypt(su, p, b"same").unwrap();
        ctx.eval();
        ctx.check(seen.lock().unwrap().insert(c[..32].to_vec()), "fresh-ephemeral", "ephemeral point repeated", || json!({"i": i}));
    });
    // low-entropy ciphertexts: every length of constant bytes
    par(ctx.pick(120, 400), |l| {
        for v in [0u8, 1, 0x7f, 0x80, 0xff] {
            ctx.eval();
            let x = vec![v; l];
            let case = || json!({"const": v, "len": l});
            if let Some(r) = ctx.nopanic("decrypt-panic-const", case, || ecies::decrypt(su, k, &x)) {
                ctx.check(r.is_err(), "accepts-const", "constant string decrypted", case);
            }
        }
    });
    ctx.bound("faults: every prefix and suffix, every bit, 4 values at every byte, every deletion, 40 extensions, all torsion replacements, splices");
    0
}

// ---------------------------------------------------------------- C23

/// Reference model of the stream: what has been absorbed since the last seed, and the read offset.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Xm {
    absorbed: Vec<u8>,
    pos: Option<u64>,
}
fn ref_stream(abs: &[u8], pos: u64, n: usize) -> Vec<u8> {
    let mut h = blake3::Hasher::new();
    h.update(abs);
    let mut r = h.finalize_xof();
    r.set_position(pos);
    let mut o = vec![0u8; n];
    r.fill(&mut o);
    o
}
#[derive(Clone, Copy, Debug)]
enum Op {
    W(usize),
    WAll(usize),
    R(usize),
    RExact(usize),
    X(usize, usize), // src len, surplus of dst
    XShort(usize),
    Reseed,
    Flush,
}

struct XofExp<'a> {
    ctx: &'a Ctx,
    ops: Vec<Op>,
}
/// First 64 bytes of the real stream after the canonical history leading to model state `m`, then a reseed,
/// then absorbing `extra`.
fn canonical_after_reseed(m: &Xm, extra: &[u8], n: usize) -> Vec<u8> {
    let mut x = suite().xof(None);
    x.write_all(&m.absorbed).unwrap();
    if let Some(p) = m.pos {
        let mut b = vec![0u8; p as usize];
        x.read_exact(&mut b).unwrap();
    }
    x.reseed();
    if !extra.is_empty() {
        x.write_all(extra).unwrap();
    }
    let mut o = vec![0u8; n];
    x.read_exact(&mut o).unwrap();
    o
}

/// model after reseeds: base = chain of states at which reseeds happened
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Node {
    /// states (absorbed since seed, position) at each reseed so far
    past: Vec<Xm>,
    cur: Xm,
}
impl Node {
    /// expected n bytes at the current position: computed from the reference hash when no reseed happened,
    /// otherwise from the real code under the canonical history (single write, single read per epoch)
    fn expect(&self, n: usize) -> Vec<u8> {
        let pos = self.cur.pos.unwrap_or(0);
        if self.past.is_empty() {
            return ref_stream(&self.cur.absorbed, pos, n);
        }
        let mut x = suite().xof(None);
        for m in &self.past {
            x.write_all(&m.absorbed).unwrap();
            if let Some(p) = m.pos {
                let mut b = vec![0u8; p as usize];
                x.read_exact(&mut b).unwrap();
            }
            x.reseed();
        }
        x.write_all(&self.cur.absorbed).unwrap();
        let mut b = vec![0u8; pos as usize + n];
        x.read_exact(&mut b).unwrap();
        b[pos as usize..].to_vec()
    }
}

impl XofExp<'_> {
    fn apply(&self, x: &mut Box<dyn XOF>, nd: &mut Node, op: Op, hist: &dyn Fn() -> serde_json::Value) {
        let ctx = self.ctx;
        ctx.tr(1);
        let wdata = |n: usize| pat(n, nd.cur.absorbed.len() as u8);
        match op {
            Op::W(n) => {
                let d = wdata(n);
                match ctx.nopanic("write-panic", hist, || x.write(&d)) {
                    Some(Ok(k)) => {
                        if nd.cur.pos.is_some() {
                            ctx.fail("write-after-read", "a write after reading was accepted", hist());
                        } else {
                            ctx.check(k > 0 && k <= n, "write-count", "write returned an impossible count", hist);
                            nd.cur.absorbed.extend_from_slice(&d[..k.min(n)]);
                        }
                    }
                    Some(Err(_)) => {
                        ctx.check(nd.cur.pos.is_some(), "write-refused", "a write before reading was refused", hist);
                    }
                    None => {}
                }
            }
            Op::WAll(n) => {
                let d = wdata(n);
                name_case(&format!("write_all of {n} bytes; {}", hist()));
                match ctx.nopanic("write_all-panic", hist, || x.write_all(&d)) {
                    Some(Ok(())) => {
                        if nd.cur.pos.is_some() {
                            ctx.fail("write-after-read", "a write after reading was accepted", hist());
                        } else {
                            nd.cur.absorbed.extend_from_slice(&d);
                        }
                    }
                    Some(Err(_)) => {
                        ctx.check(nd.cur.pos.is_some(), "write-refused", "a write before reading was refused", hist);
                    }
                    None => {}
                }
            }
            Op::R(n) => {
                let mut b = vec![0x5Au8; n];
                match ctx.nopanic("read-panic", hist, || x.read(&mut b)) {
                    Some(Ok(k)) => {
                        if !ctx.check(k > 0 && k <= n, "read-count", "read returned an impossible count", hist) {
                            return;
                        }
                        let e = nd.expect(k);
                        ctx.check(b[..k] == e[..], "stream", "bytes read differ from the stream", hist);
                        ctx.check(b[k..].iter().all(|v| *v == 0x5A), "read-overrun", "bytes beyond the count were written", hist);
                        nd.cur.pos = Some(nd.cur.pos.unwrap_or(0) + k as u64);
                    }
                    Some(Err(_)) => ctx.fail("read-err", "read failed", hist()),
                    None => {}
                }
            }
            Op::RExact(n) => {
                let mut b = vec![0x5Au8; n];
                match ctx.nopanic("read-panic", hist, || x.read_exact(&mut b)) {
                    Some(Ok(())) => {
                        ctx.check(b == nd.expect(n), "stream", "bytes read differ from the stream", hist);
                        nd.cur.pos = Some(nd.cur.pos.unwrap_or(0) + n as u64);
                    }
                    Some(Err(_)) => ctx.fail("read-err", "read_exact failed", hist()),
                    None => {}
                }
            }
            Op::X(n, extra) => {
                let src = pat(n, 99);
                let mut dst = vec![0xC3u8; n + extra];
                match ctx.nopanic("xor-panic", hist, || x.xor_key_stream(&mut dst, &src)) {
                    Some(Ok(())) => {
                        let e = nd.expect(n);
                        let want: Vec<u8> = src.iter().zip(&e).map(|(a, b)| a ^ b).collect();
                        ctx.check(dst[..n] == want[..], "stream-xor", "key stream differs from the stream read", hist);
                        ctx.check(dst[n..].iter().all(|v| *v == 0xC3), "xor-overrun", "destination beyond the source length was touched", hist);
                        nd.cur.pos = Some(nd.cur.pos.unwrap_or(0) + n as u64);
                    }
                    Some(Err(_)) => ctx.fail("xor-err", "key stream call failed", hist()),
                    None => {}
                }
            }
            Op::XShort(n) => {
                // refused (error or panic, as documented), and nothing is consumed or written
                let src = pat(n, 99);
                let mut dst = vec![0xC3u8; n - 1];
                match guard(|| x.xor_key_stream(&mut dst, &src).is_ok()) {
                    Ok(true) => ctx.fail("xor-short", "a destination shorter than the source was accepted", hist()),
                    _ => {}
                }
            }
            Op::Reseed => {
                if ctx.nopanic("reseed-panic", hist, || x.reseed()).is_some() {
                    nd.past.push(nd.cur.clone());
                    nd.cur = Xm { absorbed: vec![], pos: None };
                }
            }
            Op::Flush => {
                // flushing has no effect on the stream and does not fail
                if let Some(r) = ctx.nopanic("flush-panic", hist, || x.flush()) {
                    ctx.check(r.is_ok(), "flush-err", "flush failed", hist);
                }
            }
        }
    }
    fn dfs(&self, x: &dyn XOF, nd: &Node, hist: &mut Vec<Op>, depth: usize) {
        self.ctx.st(1);
        if depth == 0 {
            // final probe: the node continues where the model says
            let mut y = x.clone();
            let mut n2 = nd.clone();
            let h = hist.clone();
            self.apply(&mut y, &mut n2, Op::RExact(67), &|| json!({"history": format!("{h:?} then read 67")}));
            return;
        }
        for op in &self.ops {
            if matches!(op, Op::XShort(_)) && matches!(hist.last(), Some(Op::XShort(_))) {
                continue;
            }
            if matches!(op, Op::Flush) && matches!(hist.last(), Some(Op::Flush)) {
                continue;
            }
            let mut y = x.clone();
            let mut n2 = nd.clone();
            hist.push(*op);
            let h = hist.clone();
            self.apply(&mut y, &mut n2, *op, &|| json!({"history": format!("{h:?}")}));
            self.dfs(&*y, &n2, hist, depth - 1);
            hist.pop();
        }
        // the node itself was only ever cloned: it must still be exactly where it was
        let mut y = x.clone();
        let mut n2 = nd.clone();
        let h = hist.clone();
        self.apply(&mut y, &mut n2, Op::RExact(3), &|| json!({"history": format!("{h:?} then clone, explore clones, read")}));
    }
}

pub fn c23(ctx: &Ctx) -> i32 {
    let ops = vec![
        Op::W(1),
        Op::WAll(64),
        Op::WAll(1025),
        Op::R(1),
        Op::RExact(63),
        Op::RExact(130),
        Op::X(1, 0),
        Op::X(65, 5),
        Op::X(300, 0),
        Op::XShort(3),
        Op::Reseed,
        Op::Flush,
    ];
    let e = XofExp { ctx, ops: ops.clone() };
    let depth = ctx.pick(5usize, 7);
    // clone-tree exploration, parallel over the first two operations
    let n = ops.len();
    par(n * n, |k| {
        let mut x = suite().xof(None);
        let mut nd = Node { past: vec![], cur: Xm { absorbed: vec![], pos: None } };
        let mut hist = vec![];
        for op in [ops[k / n], ops[k % n]] {
            hist.push(op);
            let h = hist.clone();
            e.apply(&mut x, &mut nd, op, &|| json!({"history": format!("{h:?} (no clones)")}));
        }
        e.dfs(&*x, &nd, &mut hist, depth - 2);
    });
    // the same sequences without any clone in between (straight line)
    let sl = ctx.pick(5usize, 6);
    par(n * n, |k| {
        for rest in tuples(n, sl - 2) {
            let mut x = suite().xof(None);
            let mut nd = Node { past: vec![], cur: Xm { absorbed: vec![], pos: None } };
            let mut hist: Vec<Op> = vec![];
            let seq: Vec<Op> = [ops[k / n], ops[k % n]].into_iter().chain(rest.iter().map(|i| ops[*i])).collect();
            for op in seq.into_iter().chain([Op::RExact(40)]) {
                hist.push(op);
                e.apply(&mut x, &mut nd, op, &|| json!({"history": format!("{hist:?} (straight line)")}));
            }
            ctx.trace(1);
        }
    });
    ctx.bound(format!("all sequences of {} operations to depth {} (clone tree) and {} (straight line)", n, depth, sl));
    // two handles alive at once: operations on a clone never affect the original, for every pair of op sequences
    let two = ctx.pick(3usize, 4);
    let pre = tuples(n, 2);
    par_items(&pre, |p| {
        for a in tuples(n, two) {
            let mut x = suite().xof(Some(b"seed"));
            let mut nd = Node { past: vec![], cur: Xm { absorbed: b"seed".to_vec(), pos: None } };
            let h = || json!({"prefix": format!("{:?}", p.iter().map(|i| ops[*i]).collect::<Vec<_>>()), "interleaved": format!("{:?}", a.iter().map(|i| ops[*i]).collect::<Vec<_>>())});
            for i in p {
                e.apply(&mut x, &mut nd, ops[*i], &h);
            }
            let mut y = (*x).clone();
            let mut ny = nd.clone();
            for (j, i) in a.iter().enumerate() {
                // alternate: clone does op, original does the next one
                let o = ops[*i];
                if j % 2 == 0 {
                    e.apply(&mut y, &mut ny, o, &h);
                } else {
                    e.apply(&mut x, &mut nd, o, &h);
                }
            }
            e.apply(&mut x, &mut nd, Op::RExact(70), &h);
            e.apply(&mut y, &mut ny, Op::RExact(70), &h);
            ctx.trace(1);
        }
    });
    // seeds: the factory's seed is absorbed, for every length; distinct seeds give distinct streams
    let mut seen: HashMap<Vec<u8>, Vec<u8>> = HashMap::new();
    for l in (0..=140usize).chain([1023, 1024, 1025, 2048, 3000]) {
        for v in [0u8, 1] {
            let s = vec![v; l];
            ctx.tr(1);
            let mut x = suite().xof(Some(&s));
            let mut o = vec![0u8; 200];
            x.read_exact(&mut o).unwrap();
            ctx.check(o == ref_stream(&s, 0, 200), "seed-stream", "seeded stream is not the hash of the seed", || json!({"len": l, "byte": v}));
            if l > 0 || v == 0 {
                if let Some(other) = seen.insert(o, s.clone()) {
                    ctx.fail("seed-collision", "two seeds give the same stream", json!({"a": hex::encode(other), "b": hex::encode(s)}));
                }
            }
            // all two-way splits of the absorbed bytes
            if l <= ctx.pick(66, 140) && v == 1 {
                let d = pat(l, 0);
                let want = ref_stream(&d, 0, 40);
                for cut in 0..=l {
                    let mut x = suite().xof(Some(&d[..cut]));
                    let r = x.write_all(&d[cut..]);
                    let mut o = vec![0u8; 40];
                    x.read_exact(&mut o).unwrap();
                    ctx.tr(1);
                    ctx.check(r.is_ok() && o == want, "split-write", "splitting the absorbed bytes changes the stream", || json!({"len": l, "cut": cut}));
                }
            }
        }
    }
    // all two-way splits of reads
    let maxr = ctx.pick(200usize, 1100);
    let want = ref_stream(b"k", 0, maxr);
    par(maxr + 1, |cut| {
        let mut x = suite().xof(Some(b"k"));
        let mut o = vec![0u8; maxr];
        let (a, b) = o.split_at_mut(cut);
        x.read_exact(a).unwrap();
        x.read_exact(b).unwrap();
        ctx.tr(1);
        ctx.check(o == want, "split-read", "splitting the read changes the stream", || json!({"cut": cut}));
        let mut x = suite().xof(Some(b"k"));
        let mut o = vec![0u8; maxr];
        let src = vec![0u8; maxr];
        let (a, b) = o.split_at_mut(cut);
        let ok = x.xor_key_stream(a, &src[..cut]).is_ok() && x.xor_key_stream(b, &src[cut..]).is_ok();
        ctx.check(ok && o == want, "split-xor", "splitting the key stream changes it", || json!({"cut": cut}));
    });
    // long writes, reads and key streams, whole and in two pieces
    let ls = widths(10, ctx.pick(17, 20));
    par_items(&ls, |&l| {
        let d = pat(l, 2);
        let case = || json!({"size": l});
        let mut x = suite().xof(None);
        let r = x.write_all(&d);
        let mut o = vec![0u8; 70];
        let ok = r.is_ok() && x.read_exact(&mut o).is_ok();
        ctx.check(ok && o == ref_stream(&d, 0, 70), "long-write", "a long input is not absorbed whole", case);
        for i in places(l) {
            let mut e = d.clone();
            e[i] ^= 1;
            let mut y = suite().xof(Some(&e));
            let mut p = vec![0u8; 70];
            let _ = y.read_exact(&mut p);
            ctx.tr(1);
            ctx.check(p != o, "long-seed", "a seed byte does not matter", || json!({"size": l, "at": i}));
        }
        let want = ref_stream(b"seed", 0, l + 70);
        for cut in [0, 1, 63, 64, 65, l / 2, l - 1, l] {
            let mut x = suite().xof(Some(b"seed"));
            let mut o = vec![0u8; l + 70];
            let mut ok = x.read_exact(&mut o[..cut]).is_ok();
            let mut c = x.clone();
            ok &= x.read_exact(&mut o[cut..]).is_ok();
            ctx.tr(2);
            ctx.check(ok && o == want, "long-read", "a long read differs from the stream", || json!({"size": l, "cut": cut}));
            let src = pat(l + 70 - cut, 8);
            let mut k = vec![0u8; l + 70 - cut];
            let ok = c.xor_key_stream(&mut k, &src).is_ok();
            let w: Vec<u8> = src.iter().zip(&want[cut..]).map(|(a, b)| a ^ b).collect();
            ctx.check(ok && k == w, "long-xor", "a long key stream differs from the stream", || json!({"size": l, "cut": cut}));
            // and the stream goes on behind it
            let mut t = vec![0u8; 40];
            let ok = c.read_exact(&mut t).is_ok();
            ctx.check(ok && t == ref_stream(b"seed", l as u64 + 70, 40), "long-after", "the stream does not go on behind a long key stream", || json!({"size": l, "cut": cut}));
        }
    });
    ctx.bound(format!("{} long sizes around the powers of two up to {}: absorbed, read, key stream, split in two", ls.len(), ls.last().unwrap()));
    // many reseeds in a row never come back to an earlier stream
    {
        let mut x = suite().xof(Some(b"seed"));
        let mut seen: HashSet<Vec<u8>> = HashSet::new();
        for i in 0..ctx.pick(300, 3000) {
            let mut o = vec![0u8; 32];
            let ok = x.clone().read_exact(&mut o).is_ok();
            ctx.tr(1);
            ctx.check(ok && seen.insert(o), "reseed-cycle", "repeated reseeding came back to an earlier stream", || json!({"reseeds": i}));
            x.reseed();
        }
    }
    // a reseeded stream depends on everything before it and is unrelated to the continuing stream
    let mut after: HashMap<Vec<u8>, String> = HashMap::new();
    for l in [0usize, 1, 2, 64, 65, 1025] {
        for p in [None, Some(1u64), Some(2), Some(64), Some(65), Some(128), Some(129), Some(300)] {
            let m = Xm { absorbed: pat(l, 1), pos: p };
            let o = canonical_after_reseed(&m, &[], 64);
            ctx.tr(1);
            let tag = format!("absorbed {l} read {p:?}");
            if let Some(t) = after.insert(o.clone(), tag.clone()) {
                ctx.fail("reseed-collision", "two different states reseed to the same stream", json!({"a": t, "b": tag}));
            }
            let cont = ref_stream(&m.absorbed, 0, 2048);
            ctx.check(!cont.windows(16).any(|w| w == &o[..16]), "reseed-old-stream", "reseeding continues the old stream", || json!({"state": tag}));
            ctx.check(o != ref_stream(&[], 0, 64), "reseed-fixed", "reseeding forgets everything", || json!({"state": tag}));
            let o2 = canonical_after_reseed(&m, b"x", 64);
            ctx.check(o2 != o, "reseed-absorb", "absorbing after a reseed has no effect", || json!({"state": tag}));
        }
    }
    0
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Beh {
    Full,
    Chunk,
    Intr,
    Short,
    Fail,
}
const BEH: [Beh; 5] = [Beh::Full, Beh::Chunk, Beh::Intr, Beh::Short, Beh::Fail];

/// One random source. `script[c]` is its behaviour during call c of the stream.
struct Src {
    script: Vec<Beh>,
    call: std::rc::Rc<std::cell::Cell<usize>>,
    id: u8,
    served: usize,
    last_call: usize,
    tick: usize,
    tweak: Option<(usize, usize)>, // (call, byte) whose value differs
}
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let c = self.call.get();
        if c != self.last_call {
            self.last_call = c;
            self.served = 0;
            self.tick = 0;
        }
        self.tick += 1;
        let byte = |i: usize| {
            let h = blake3::hash(&[self.id, c as u8, i as u8]);
            h.as_bytes()[0] ^ if self.tweak == Some((c, i)) { 1 } else { 0 }
        };
        let mut n = b.len();
        match self.script[c] {
            Beh::Full => {}
            Beh::Chunk => n = n.min(1 + self.tick % 3),
            Beh::Intr => {
                if self.tick % 2 == 1 {
                    return Err(std::io::ErrorKind::Interrupted.into());
                }
                n = n.min(20);
            }
            Beh::Short => {
                // runs dry after 31 bytes
                n = n.min(31usize.saturating_sub(self.served));
            }
            Beh::Fail => {
                if self.served >= 7 {
                    return Err(std::io::ErrorKind::Other.into());
                }
                n = n.min(7);
            }
        }
        for i in 0..n {
            b[i] = byte(self.served + i);
        }
        self.served += n;
        Ok(n)
    }
}
fn healthy(b: Beh) -> bool {
    !matches!(b, Beh::Short | Beh::Fail)
}
fn run_rs(scripts: &[Vec<Beh>], lens: &[usize], tweak: Option<(usize, usize, usize)>, src: u8) -> Vec<Result<Vec<u8>, String>> {
    let call = std::rc::Rc::new(std::cell::Cell::new(0));
    let readers: Vec<Box<dyn Read>> = scripts
        .iter()
        .enumerate()
        .map(|(i, s)| {
            Box::new(Src {
                script: s.clone(),
                call: call.clone(),
                id: i as u8,
                served: 0,
                last_call: usize::MAX,
                tick: 0,
                tweak: tweak.filter(|t| t.0 == i).map(|t| (t.1, t.2)),
            }) as Box<dyn Read>
        })
        .collect();
    let mut rs = RandStream::new(readers);
    let mut out = vec![];
    for (c, l) in lens.iter().enumerate() {
        call.set(c);
        let mut d = vec![0x77u8; *l];
        let s = vec![src; *l];
        out.push(match guard(|| rs.xor_key_stream(&mut d, &s)) {
            Ok(Ok(())) => Ok(d),
            Ok(Err(StreamError::ReadersFailure)) => Err("readers".into()),
            Ok(Err(e)) => Err(format!("{e}")),
            Err(p) => Err(format!("panic {p}")),
        });
    }
    out
}

/// A stream whose bytes are an explicit script; reports an error when the script is exhausted.
struct Bytes {
    b: Vec<u8>,
    n: usize,
    dry: bool,
}
impl Stream for Bytes {
    fn xor_key_stream(&mut self, dst: &mut [u8], src: &[u8]) -> Result<(), StreamError> {
        if self.n + src.len() > self.b.len() {
            self.dry = true;
            return Err(StreamError::ReadersFailure);
        }
        for i in 0..src.len() {
            dst[i] = src[i] ^ self.b[self.n + i];
        }
        self.n += src.len();
        Ok(())
    }
}

pub fn c24(ctx: &Ctx) -> i32 {
    // --- mixing: every behaviour of up to 3 sources over 2 (3) calls
    for nr in 1..=3usize {
        let calls = if nr == 3 { ctx.pick(2usize, 2) } else { ctx.pick(2, 3) };
        let all = tuples(BEH.len(), nr * calls);
        par_items(&all, |t| {
            let scripts: Vec<Vec<Beh>> = (0..nr).map(|r| (0..calls).map(|c| BEH[t[r * calls + c]]).collect()).collect();
            let lens: Vec<usize> = vec![48; calls];
            let case = || json!({"sources": format!("{scripts:?}")});
            let out = run_rs(&scripts, &lens, None, 0);
            let plain: Vec<Vec<Beh>> = scripts.iter().map(|s| s.iter().map(|b| if healthy(*b) { Beh::Full } else { *b }).collect()).collect();
            let out_plain = run_rs(&plain, &lens, None, 0);
            let out_x = run_rs(&scripts, &lens, None, 0xA5);
            for c in 0..calls {
                ctx.eval();
                let alive = (0..nr).filter(|r| healthy(scripts[*r][c])).count();
                match &out[c] {
                    Ok(d) => {
                        ctx.check(alive > 0, "mix-no-error", "output although every source failed", case);
                        ctx.check(Ok(d) == out_plain[c].as_ref().map_err(|_| ()), "mix-fragment", "fragmented or interrupted reads change the output", case);
                        ctx.check(matches!(&out_x[c], Ok(x) if x.iter().zip(d).all(|(a, b)| a ^ b == 0xA5)), "mix-xor", "output is not source xor key stream", case);
                        for c2 in 0..c {
                            if let Ok(d2) = &out[c2] {
                                ctx.check(d != d2, "mix-repeat", "two calls with different source bytes gave the same output", case);
                            }
                        }
                        ctx.nontriv();
                        // depends on every byte of every healthy source
                        for r in 0..nr {
                            if healthy(scripts[r][c]) {
                                for byte in 0..32 {
                                    if byte % 5 != 0 && byte != 31 && calls > 1 {
                                        continue;
                                    }
                                    let o2 = run_rs(&scripts, &lens, Some((r, c, byte)), 0);
                                    ctx.eval();
                                    ctx.check(out[c] != o2[c], "mix-ignores-source", "output does not depend on a healthy source", || json!({"sources": format!("{scripts:?}"), "reader": r, "call": c, "byte": byte}));
                                    for cc in 0..c {
                                        ctx.check(out[cc] == o2[cc], "mix-causality", "an earlier output depends on later source bytes", case);
                                    }
                                }
                            }
                        }
                    }
                    Err(e) => {
                        ctx.check(alive == 0 && e == "readers", "mix-error", &format!("failed ({e}) although {alive} sources were healthy"), case);
                    }
                }
            }
        });
    }
    ctx.bound("every behaviour (full, chunked, interrupted, runs dry, fails midway) of 1-3 sources over 1-3 calls, every byte of every healthy source flipped");
    // many sources: each single one healthy, each single one failing, and every byte of each matters
    for nr in 4..=ctx.pick(12usize, 40) {
        for odd in 0..=nr {
            for (rest, one) in [(Beh::Full, Beh::Fail), (Beh::Fail, Beh::Full), (Beh::Chunk, Beh::Short)] {
                let scripts: Vec<Vec<Beh>> = (0..nr).map(|r| vec![if r == odd { one } else { rest }]).collect();
                let case = || json!({"sources": nr, "odd": odd, "rest": format!("{rest:?}"), "one": format!("{one:?}")});
                let out = run_rs(&scripts, &[40], None, 0);
                let alive: Vec<usize> = (0..nr).filter(|r| healthy(scripts[*r][0])).collect();
                ctx.eval();
                if !ctx.check(out[0].is_ok() == !alive.is_empty(), "many-error", "sources healthy but no output, or none healthy and output", case) {
                    continue;
                }
                for r in alive {
                    for byte in [0usize, 31] {
                        let o2 = run_rs(&scripts, &[40], Some((r, 0, byte)), 0);
                        ctx.eval();
                        ctx.nontriv();
                        ctx.check(out[0] != o2[0], "many-ignores-source", "output does not depend on a healthy source", || json!({"sources": nr, "odd": odd, "reader": r, "byte": byte}));
                    }
                }
            }
        }
    }
    ctx.bound(format!("4..={} sources: every single one deviating from the rest, first and last byte of every healthy source flipped", ctx.pick(12, 40)));
    // output sizes
    let sc = vec![vec![Beh::Full]];
    {
        // the output is one stream whatever is asked for, and never cycles within it
        let ls = widths(9, ctx.pick(17, 20));
        let mx = *ls.last().unwrap();
        let full = run_rs(&sc, &[mx], None, 0)[0].clone().unwrap_or_default();
        ctx.check(full.len() == mx, "long-output", "no output", || json!({"len": mx}));
        for l in ls {
            ctx.eval();
            let o = run_rs(&sc, &[l], None, 0);
            ctx.check(matches!(&o[0], Ok(d) if d[..] == full[..l]), "mix-length", "output for a shorter request is not the same stream", || json!({"len": l}));
        }
        let mut seen = HashSet::new();
        ctx.check(full.chunks_exact(16).all(|w| seen.insert(w)), "mix-cycle", "the output repeats itself", || json!({"len": mx}));
    }
    let long = run_rs(&sc, &[300], None, 0)[0].clone().unwrap_or_default();
    for l in 0..=300usize {
        ctx.eval();
        let o = run_rs(&sc, &[l], None, 0);
        ctx.check(matches!(&o[0], Ok(d) if d[..] == long[..l]), "mix-length", "output for a shorter request is not the same stream", || json!({"len": l}));
    }
    // unequal buffers are refused without output
    for (dl, sl) in [(0usize, 1usize), (1, 0), (31, 32), (33, 32), (100, 1)] {
        ctx.eval();
        let mut rs = RandStream::new(vec![Box::new(&[7u8; 1000][..])]);
        let mut d = vec![9u8; dl];
        let r = guard(|| rs.xor_key_stream(&mut d, &vec![0u8; sl]));
        ctx.check(matches!(r, Ok(Err(StreamError::WrongBufferLengths))) && d.iter().all(|b| *b == 9), "mix-buffers", "unequal buffers must be refused", || json!({"dst": dl, "src": sl}));
    }
    // default source: outputs never repeat
    {
        let mut seen = HashSet::new();
        for i in 0..ctx.pick(2000, 20000) {
            let mut rs = RandStream::new(vec![]);
            let mut d = [0u8; 32];
            ctx.eval();
            let ok = rs.xor_key_stream(&mut d, &[0u8; 32]).is_ok();
            let first = seen.insert(d);
            let ok2 = rs.xor_key_stream(&mut d, &[0u8; 32]).is_ok();
            ctx.check(ok && ok2 && first && seen.insert(d), "default-repeat", "the default stream repeated or failed", || json!({"i": i}));
        }
    }
    // --- bits
    let lens: Vec<u64> = (0..=80u64).chain([127, 128, 129, 252, 253, 255, 256, 257, 511, 512, 513, 2047, 2048, 2049, 4097]).collect();
    par_items(&lens, |&n| {
        let nb = ((n + 7) / 8) as usize;
        let mut scripts: Vec<Vec<u8>> = vec![vec![0; 4 * nb + 8], vec![0xff; 4 * nb + 8]];
        for i in 0..nb * 8 {
            let mut s = vec![0u8; 4 * nb + 8];
            s[i / 8] = 1 << (i % 8);
            scripts.push(s.clone());
            scripts.push(s.iter().map(|b| !b).collect());
        }
        for exact in [false, true] {
            let mut vals = HashSet::new();
            for s in &scripts {
                ctx.eval();
                let case = || json!({"bits": n, "exact": exact, "stream": hex::encode(&s[..nb])});
                let mut st = Bytes { b: s.clone(), n: 0, dry: false };
                if let Some(r) = ctx.nopanic("bits-panic", case, || bits(n, exact, &mut st)) {
                    let v = BigUint::from_bytes_be(&r);
                    ctx.check(r.len() == nb, "bits-size", "wrong number of bytes", case);
                    ctx.check(v.bits() as u64 <= n, "bits-range", "value has more bits than requested", case);
                    if exact {
                        ctx.check(v.bits() as u64 == n, "bits-exact", "value does not have exactly the requested bit length", case);
                    }
                    vals.insert(r);
                }
            }
            // every bit that may vary does vary
            let free = if exact { n.saturating_sub(1) } else { n };
            ctx.check(vals.len() as u64 > free.min(1), "bits-constant", "bits do not depend on the source", || json!({"bits": n, "exact": exact}));
            for i in 0..free {
                let one = vals.iter().any(|v| BigUint::from_bytes_be(v) >> (i as usize) & BigUint::from(1u8) == BigUint::from(1u8));
                let zero = vals.iter().any(|v| BigUint::from_bytes_be(v) >> (i as usize) & BigUint::from(1u8) != BigUint::from(1u8));
                ctx.check(one && zero, "bits-stuck", "a bit never varies", || json!({"bits": n, "exact": exact, "bit": i}));
            }
            ctx.nontriv();
        }
    });
    // exact distribution: every answer of the stream for small lengths
    let maxu = ctx.pick(12u64, 16);
    par(maxu as usize, |k| {
        let n = k as u64 + 1;
        for exact in [false, true] {
            let nb = ((n + 7) / 8) as usize;
            let mut cnt: BTreeMap<Vec<u8>, u64> = BTreeMap::new();
            let total = 1u64 << (8 * nb);
            let mut dry = false;
            for v in 0..total {
                ctx.eval();
                let mut st = Bytes { b: v.to_be_bytes()[8 - nb..].to_vec(), n: 0, dry: false };
                if let Ok(r) = guard(|| bits(n, exact, &mut st)) {
                    *cnt.entry(r).or_insert(0) += 1;
                }
                dry |= st.dry;
            }
            if dry {
                ctx.outcome("bits-draws-more-than-needed");
                continue;
            }
            ctx.nontriv();
            let want = if exact { 1u64 << (n - 1) } else { 1u64 << n };
            let mx = cnt.values().max().copied().unwrap_or(0);
            let mn = cnt.values().min().copied().unwrap_or(0);
            ctx.check(cnt.len() as u64 == want && mx == mn, "bits-uniform", "bits are not uniform over the allowed values", || json!({"bits": n, "exact": exact, "values": cnt.len(), "max": mx, "min": mn}));
        }
    });
    // --- random integers: all first (and second) answers for every small modulus
    let maxm = ctx.pick(70u64, 520);
    par(maxm as usize - 1, |k| {
        let m = k as u64 + 2;
        let mb = BigInt::from(m);
        // explore the choice tree of stream bytes: a node that runs dry is expanded by one more byte per possible value
        let mut cnt: BTreeMap<u64, BTreeMap<usize, u64>> = BTreeMap::new();
        let maxbytes = if m < 256 { ctx.pick(1, 2) } else { 2 };
        let mut frontier: Vec<Vec<u8>> = vec![vec![]];
        for _ in 0..maxbytes {
            let mut next = vec![];
            for f in &frontier {
                for v in 0..=255u8 {
                    let mut b = f.clone();
                    b.push(v);
                    let mut st = Bytes { b: b.clone(), n: 0, dry: false };
                    name_case(&format!("random_int mod {m} stream {b:?}"));
                    match guard(|| random_int(&mb, &mut st)) {
                        Ok(r) => {
                            ctx.eval();
                            ctx.check(r.sign() != Sign::Minus && r < mb, "int-range", "random integer outside [0, modulus)", || json!({"m": m, "stream": hex::encode(&b), "got": r.to_string()}));
                            let u = r.to_bytes_be().1.iter().fold(0u64, |a, x| a * 256 + *x as u64);
                            *cnt.entry(u).or_default().entry(b.len()).or_insert(0) += 1;
                        }
                        Err(_) if st.dry => next.push(b),
                        Err(p) => ctx.fail("int-panic", p, json!({"m": m, "stream": hex::encode(&b)})),
                    }
                }
            }
            frontier = next;
        }
        ctx.nontriv();
        // uniform over all residues, or over all non-zero residues (zero may be excluded)
        let mut support: Vec<u64> = cnt.keys().copied().collect();
        support.sort();
        let full: Vec<u64> = (0..m).collect();
        let hists: HashSet<Vec<(usize, u64)>> = cnt.values().map(|h| h.iter().map(|(a, b)| (*a, *b)).collect()).collect();
        ctx.check((support == full || support == full[1..]) && hists.len() == 1, "int-uniform", "random integers are not uniform below the modulus", || json!({"m": m, "support": support.len(), "histograms": hists.len()}));
    });
    // two-byte moduli: every first answer
    let mut ms: Vec<u64> = vec![];
    for k in 8..=15u64 {
        for d in 0..=3 {
            ms.extend([(1 << k) + d, (1 << (k + 1)) - 1 - d, 3 << (k - 1)]);
            ms.push((1 << k) + (0x5a5a & ((1 << k) - 1)) + d);
        }
    }
    ms.sort();
    ms.dedup();
    ms.retain(|m| *m < 65536);
    par_items(&ms, |&m| {
        let mb = BigInt::from(m);
        let mut cnt: HashMap<u64, u64> = HashMap::new();
        for v in 0..65536u64 {
            ctx.eval();
            let mut st = Bytes { b: v.to_be_bytes()[6..].to_vec(), n: 0, dry: false };
            match guard(|| random_int(&mb, &mut st)) {
                Ok(r) => {
                    ctx.check(r.sign() != Sign::Minus && r < mb, "int-range", "random integer outside [0, modulus)", || json!({"m": m, "stream": v}));
                    *cnt.entry(r.to_bytes_be().1.iter().fold(0u64, |a, x| a * 256 + *x as u64)).or_insert(0) += 1;
                }
                Err(_) if st.dry => {}
                Err(p) => ctx.fail("int-panic", p, json!({"m": m, "stream": v})),
            }
        }
        ctx.nontriv();
        let n = cnt.keys().filter(|k| **k != 0).count() as u64;
        let hist: HashSet<u64> = cnt.iter().filter(|(k, _)| **k != 0).map(|(_, v)| *v).collect();
        let zero = cnt.get(&0).map_or(true, |z| hist.contains(z));
        ctx.check(n == m - 1 && hist.len() == 1 && zero, "int-uniform", "random integers are not uniform below the modulus", || json!({"m": m, "non-zero values": n, "counts": hist}));
    });
    // every width: each bit of the result varies with the source
    let es: Vec<usize> = (2..=ctx.pick(300, 1100)).collect();
    par_items(&es, |&e| {
        let ms4: [BigInt; 4] = [(BigInt::from(1) << (e + 1)) - 1, (BigInt::from(1) << (e + 1)) - 3, (BigInt::from(3) << e) + 1, (BigInt::from(5) << e) - 1];
        for m in ms4 {
            let nb = (m.bits() as usize + 7) / 8;
            let (mut or, mut and) = (BigUint::zero(), (BigUint::from(1u8) << (nb * 8)) - BigUint::from(1u8));
            for i in 0..nb * 8 {
                for inv in [false, true] {
                    let mut b = vec![0u8; nb];
                    b[i / 8] = 1 << (i % 8);
                    if inv {
                        b.iter_mut().for_each(|x| *x = !*x);
                    }
                    // later answers stay small, so that a refused first answer is followed by an accepted one
                    let mut tail = vec![0u8; nb];
                    tail[nb - 1] = 1;
                    for _ in 0..40 {
                        b.extend_from_slice(&tail);
                    }
                    ctx.eval();
                    let mut st = Bytes { b, n: 0, dry: false };
                    if let Ok(r) = guard(|| random_int(&m, &mut st)) {
                        ctx.check(r.sign() != Sign::Minus && r < m, "int-range", "random integer outside [0, modulus)", || json!({"m": m.to_string(), "bit": i}));
                        let v = BigUint::from_bytes_be(&r.to_bytes_be().1);
                        or = or | v.clone();
                        and = and & v;
                    }
                }
            }
            ctx.nontriv();
            ctx.check(or.bits() == m.bits() && (or.clone() + BigUint::from(1u8)).bits() == m.bits() + 1 && and.is_zero(), "int-stuck-bit", "a bit of the random integer never varies", || json!({"m": m.to_string(), "ever set": or.to_string(), "always set": and.to_string()}));
        }
    });
    ctx.bound(format!("random integers: {} two-byte moduli over every first answer; moduli of every width up to {} bits, each source bit alone set or clear", ms.len(), es.len()));
    // large moduli: extreme answers
    for e in [8usize, 16, 64, 252, 255, 256] {
        for d in [-1i64, 0, 1] {
            let m: BigInt = (BigInt::from(1) << e) + BigInt::from(d);
            let nb = (m.bits() + 7) / 8;
            let mut scripts = vec![];
            let le = |v: &BigInt| {
                let mut b = v.to_bytes_be().1;
                while b.len() < nb {
                    b.insert(0, 0);
                }
                b
            };
            for v in [m.clone() - 1, m.clone(), m.clone() + 1, BigInt::from(1)] {
                if v.bits() <= m.bits() {
                    let mut s = le(&v);
                    s.extend(le(&BigInt::from(5)));
                    s.extend(le(&BigInt::from(5)));
                    scripts.push((v, s));
                }
            }
            for (v, s) in scripts {
                ctx.eval();
                let mut st = Bytes { b: s.clone(), n: 0, dry: false };
                let case = || json!({"m": m.to_string(), "first": v.to_string()});
                if let Some(r) = ctx.nopanic("int-panic", case, || random_int(&m, &mut st)) {
                    ctx.check(r.sign() != Sign::Minus && r < m, "int-range", "random integer outside [0, modulus)", case);
                }
            }
        }
    }
    // --- byte filling
    for l in 0..=200usize {
        for pre in [0u8, 0xff] {
            ctx.eval();
            let data = pat(l, 5);
            let mut st = Bytes { b: data.clone(), n: 0, dry: false };
            let mut b = vec![pre; l];
            let r = guard(|| bytes(&mut b, &mut st).is_ok());
            ctx.check(matches!(r, Ok(true)) && b == data && st.n == l, "bytes-fill", "bytes does not fill exactly from the source", || json!({"len": l}));
            if l > 0 {
                let mut st = Bytes { b: data[..l - 1].to_vec(), n: 0, dry: false };
                let mut b = vec![pre; l];
                ctx.check(matches!(guard(|| bytes(&mut b, &mut st).is_err()), Ok(true)), "bytes-fail", "a failing source must be reported", || json!({"len": l}));
            }
        }
    }
    0
}
