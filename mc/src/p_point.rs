//! C06 group law / scalar multiplication, C07 canonical and small-order predicates, C08 encodings,
//! C31 equality/order/hash, C25 embedding, C26 key generation — on the real Ed25519 code against the
//! independent reference in refcurve.rs.
use crate::engine::*;
use crate::p_scalar::{alphabet, from32, order, to32, B32};
use crate::refcurve::*;
use kyber_rs::cipher::{Stream, StreamError};
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler, Marshaling};
use kyber_rs::group::edwards25519::{Curve, Point as EdPoint, Scalar as EdScalar, SuiteEd25519};
use kyber_rs::group::{PointCanCheckCanonicalAndSmallOrder, ScalarCanCheckCanonical};
use kyber_rs::util::key::{new_key_pair, Generator};
use kyber_rs::{Point, Scalar, XOFFactory};
use num_bigint_dig::BigUint;
use num_traits::One;
use serde_json::json;
use sha2::{Digest, Sha512};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn suite() -> SuiteEd25519 {
    SuiteEd25519::new_blake3_sha256_ed25519()
}
pub fn sc(b: &B32) -> EdScalar {
    EdScalar { v: *b }
}
pub fn penc(p: &EdPoint) -> Vec<u8> {
    p.marshal_binary().expect("point encoding")
}
pub fn pdec(b: &[u8]) -> Option<EdPoint> {
    let mut p = EdPoint::default();
    p.unmarshal_binary(b).ok().map(|_| p)
}
fn pow2(k: usize) -> BigUint {
    BigUint::one() << k
}
/// A copy of `p` that takes the variable-time multiplication path (only reachable through
/// deserialisation; None if the representation does not have the switch).
fn vartime(p: &EdPoint) -> Option<EdPoint> {
    let mut v = serde_json::to_value(p).ok()?;
    let o = v.as_object_mut()?;
    if !o.contains_key("var_time") {
        return None;
    }
    o.insert("var_time".into(), json!(true));
    serde_json::from_value(v).ok()
}
/// The same point with another representation (computed as (p + q) - q)
fn rerep(p: &EdPoint, q: &EdPoint) -> EdPoint {
    let s = EdPoint::default().add(p, q);
    EdPoint::default().sub(&s, q)
}

/// y values around every power of two and both ends of the field
fn y_windows(w: u64, step_all_k: bool) -> Vec<B32> {
    let mut v: Vec<BigUint> = vec![];
    let top = pow2(255);
    for d in 0..w {
        v.push(BigUint::from(d));
        if d < w.min(4096) {
            v.push(&top - 1u32 - d);
        }
    }
    for k in 0..255usize {
        if step_all_k || [25, 26, 51, 52, 76, 77, 102, 127, 128, 153, 178, 179, 204, 229, 230, 254].contains(&k) {
            for d in 0..(w / 64).max(4) {
                v.push(pow2(k) + d);
                if pow2(k) > BigUint::from(d) {
                    v.push(pow2(k) - d);
                }
            }
        }
    }
    v.retain(|x| x < &top);
    let mut v: Vec<B32> = v.iter().map(to32).collect();
    v.sort();
    v.dedup();
    v
}

pub fn interesting_points(extra_y: usize) -> Vec<(String, Rp)> {
    let b = Rp::base();
    let l = order();
    let mut v: Vec<(String, Rp)> = vec![];
    let mut acc = Rp::zero();
    for k in 0..=17 {
        v.push((format!("{k}B"), acc));
        v.push((format!("-{k}B"), acc.neg()));
        acc = acc.add(b);
    }
    for (i, t) in torsion().into_iter().enumerate() {
        v.push((format!("T{i}"), t));
        v.push((format!("B+T{i}"), b.add(t)));
    }
    for k in [128usize, 252, 251, 64] {
        v.push((format!("2^{k}B"), b.mul(&pow2(k))));
    }
    v.push(("(L/2)B".into(), b.mul(&(&l / 2u32))));
    let mut n = 0;
    for y in y_windows(64, false) {
        if n >= extra_y {
            break;
        }
        if let Some(p) = Rp::from_y(Fp::from_bytes(&y)) {
            v.push((format!("y={}", hex::encode(y)), p));
            n += 1;
        }
    }
    v
}
fn to_ed(ctx: &Ctx, name: &str, r: &Rp) -> Option<EdPoint> {
    match guard(|| pdec(&r.enc())) {
        Ok(Some(p)) => Some(p),
        _ => {
            ctx.fail("decode-curve-point", "the encoding of a curve point was refused", json!({"point": name, "enc": hex::encode(r.enc())}));
            None
        }
    }
}

pub fn c06(ctx: &Ctx) -> i32 {
    let pts: Vec<(String, Rp, EdPoint)> = interesting_points(ctx.pick(60, 400))
        .into_iter()
        .filter_map(|(n, r)| to_ed(ctx, &n, &r).map(|e| (n, r, e)))
        .collect();
    let g = EdPoint::default().base();
    ctx.check(Rp::base().matches(&penc(&g)), "base", "base point is not the standard generator", || json!(hex::encode(penc(&g))));
    ctx.check(Rp::zero().matches(&penc(&EdPoint::default().null())), "null", "neutral element is not (0,1)", || json!(0));
    // group law on every ordered pair, with two representations of each operand
    par_items(&pts, |(n1, r1, e1)| {
        let mut neg = g;
        let ng = neg.neg(e1);
        let case1 = || json!({"p": n1});
        ctx.check(r1.neg().matches(&penc(&ng)) && r1.neg().matches(&penc(&neg)), "neg", "negation wrong", case1);
        let null = g.null();
        ctx.check(r1.matches(&penc(&g.add(e1, &null))) && r1.matches(&penc(&g.add(&null, e1))) && r1.matches(&penc(&g.sub(e1, &null))), "neutral", "neutral element law fails", case1);
        ctx.check(Rp::zero().matches(&penc(&g.add(e1, &ng))) && Rp::zero().matches(&penc(&g.sub(e1, e1))), "inverse", "p + (-p) is not neutral", case1);
        let mut st = g;
        ctx.check(r1.matches(&penc(&st.set(e1))) && r1.matches(&penc(&st)), "set", "assignment wrong", case1);
        let e1b = rerep(e1, &pts[5].2);
        for (n2, r2, e2) in &pts {
            ctx.evals_add(2);
            let case = || json!({"p": n1, "q": n2});
            let s = g.add(e1, e2);
            ctx.check(r1.add(*r2).matches(&penc(&s)), "add", "sum differs from affine arithmetic", case);
            let d = g.sub(&e1b, e2);
            ctx.check(r1.add(r2.neg()).matches(&penc(&d)), "sub", "difference differs from affine arithmetic", case);
            // chained, un-normalised operands (Z != 1): ((p+q)+(p-q)) = 2p, and its double
            let t = g.add(&s, &d);
            let two = r1.add(*r1);
            ctx.check(two.matches(&penc(&t)), "chain", "(p+q)+(p-q) != 2p", case);
            ctx.nontriv();
        }
    });
    ctx.outcome_n("pairs", (pts.len() * pts.len()) as u64);
    // scalar multiplication
    let l = order();
    let mut scalars: Vec<B32> = alphabet(ctx.thorough()).into_iter().filter(|b| b[31] < 0x80).collect();
    // every digit at every position, and every pair of digits at adjacent positions
    for i in 0..64usize {
        for d in 1..16u32 {
            for e in 0..16u32 {
                if i + 1 >= 64 && e > 0 {
                    continue;
                }
                let k = (BigUint::from(d) << (4 * i)) + (BigUint::from(e) << (4 * (i + 1).min(63)));
                if k < pow2(255) {
                    scalars.push(to32(&k));
                }
            }
        }
    }
    scalars.sort();
    scalars.dedup();
    // sliding windows of bits for the variable-time path
    let w = ctx.pick(7usize, 11);
    let mut windows: Vec<B32> = vec![];
    for pos in 0..255 - w {
        for x in (1u32..(1 << w)).step_by(2) {
            windows.push(to32(&(BigUint::from(x) << pos)));
        }
    }
    for b in [0x77u8, 0x55, 0x33, 0x11, 0x7f, 0x0f, 0x1f, 0x3f, 0x6d, 0x5b] {
        for top in [0x7fu8, 0x10, 0x0f, 0x40] {
            let mut x = [b; 32];
            x[31] = top;
            windows.push(x);
        }
    }
    let ntest = ctx.pick(4, 24);
    let mut tests: Vec<&(String, Rp, EdPoint)> = vec![&pts[2]];
    tests.extend(pts.iter().filter(|p| p.0.starts_with("B+T") || p.0.starts_with("y=")).step_by(7).take(ntest - 1));
    for (ti, (n, r, e)) in tests.iter().enumerate() {
        let tab = Table::new(*r);
        let erep = rerep(e, &pts[9].2);
        let ev = vartime(e);
        if ev.is_none() {
            ctx.extra("vartime", json!("variable-time switch not present in the serialised form; path not explored"));
        }
        let check = |kind: &str, key: &str, got: &EdPoint, k: &B32, want: &B32| {
            ctx.eval();
            if penc(got) != want {
                ctx.fail(key, format!("{kind}: k*P differs from repeated addition"), json!({"P": n, "k": hex::encode(k), "got": hex::encode(penc(got)), "want": hex::encode(want)}));
            }
        };
        par_items(&scalars, |k| {
            let want = tab.mul(k).enc();
            let s = sc(k);
            check("constant time", "mul", &g.mul(&s, Some(e)), k, &want);
            check("constant time, other representation", "mul", &g.mul(&s, Some(&erep)), k, &want);
            if ti == 0 {
                check("base table", "mul-base", &g.mul(&s, None), k, &want);
                ctx.nontriv();
            }
        });
        if let Some(ev) = ev {
            // the receiver's switch selects the path
            let sl: Vec<&B32> = scalars.iter().chain(windows.iter()).collect();
            par_items(&sl, |k| {
                let want = tab.mul(k).enc();
                check("variable time", "mul-vartime", &ev.mul(&sc(k), Some(e)), k, &want);
                ctx.nontriv();
            });
        }
        if ti == 0 {
            par_items(&windows, |k| {
                let want = tab.mul(k).enc();
                check("base table", "mul-base", &g.mul(&sc(k), None), k, &want);
            });
        }
    }
    // all points x small and boundary scalars (includes torsion and neutral)
    let few: Vec<B32> = {
        let mut v: Vec<B32> = (0..=17u32).map(|x| to32(&BigUint::from(x))).collect();
        for d in 0..=8u32 {
            v.push(to32(&(&l - d)));
            v.push(to32(&(&l + d)));
        }
        v.push(to32(&(&l * 7u32)));
        v.push(to32(&(&l * 8u32 - 1u32)));
        v.retain(|b| b[31] < 0x80);
        v
    };
    par_items(&pts, |(n, r, e)| {
        for k in &few {
            ctx.eval();
            let want = r.mul(&from32(k)).enc();
            let got = penc(&g.mul(&sc(k), Some(e)));
            ctx.check(got == want, "mul", "k*P differs from repeated addition", || json!({"P": n, "k": hex::encode(k)}));
            if let Some(ev) = vartime(e) {
                let got = penc(&ev.mul(&sc(k), Some(e)));
                ctx.check(got == want, "mul-vartime", "k*P differs from repeated addition", || json!({"P": n, "k": hex::encode(k)}));
            }
        }
    });
    // linearity (a+b)P = aP + bP with the scalar field's own addition, on prime-order points
    let al: Vec<B32> = alphabet(false).into_iter().filter(|b| b[31] < 0x80).step_by(ctx.pick(4, 1)).collect();
    par_items(&al, |a| {
        for b in &al {
            ctx.eval();
            let (x, y) = (sc(a), sc(b));
            let s = penc(&g.mul(&(x + y), None));
            let t = penc(&g.add(&g.mul(&x, None), &g.mul(&y, None)));
            ctx.check(s == t, "linear", "(a+b)B != aB + bB", || json!({"a": hex::encode(a), "b": hex::encode(b)}));
        }
    });
    ctx.sample("pair", || json!({"p": pts[3].0, "q": pts[40].0}));
    ctx.sample("scalar", || json!({"k": hex::encode(scalars[77])}));
    ctx.bound(format!("{} points, all ordered pairs; {} scalars (all digits at all 64 positions, all adjacent digit pairs, boundary lattice below 2^255) and {} bit windows of width {w} for base-table and variable-time paths, {} base points", pts.len(), scalars.len(), windows.len(), tests.len()));
    0
}

// ---------------------------------------------------------------- C07

/// Byte strings that cover every decision class of a comparison with `m` (little endian): agree with
/// m above position i, any byte at i, {0, ff, m's own} below; plus windows around m.
fn comparator_classes(m: &BigUint, window: u32) -> Vec<B32> {
    let mb = to32(m);
    let mut v = vec![];
    for i in 0..32 {
        for x in 0..=255u8 {
            for fill in 0..5 {
                let mut b = mb;
                b[i] = x;
                for j in 0..i {
                    match fill {
                        0 => b[j] = 0,
                        1 => b[j] = 0xff,
                        2 => (),
                        3 => b[j] = mb[j].wrapping_add(1),
                        _ => b[j] = mb[j].wrapping_sub(1),
                    }
                }
                v.push(b);
            }
        }
    }
    for d in 0..window {
        v.push(to32(&(m + d)));
        v.push(to32(&(m - d)));
    }
    for hi in 0..=255u8 {
        for lo in 0..=255u8 {
            for f in [0u8, 0xff] {
                let mut b = [f; 32];
                b[31] = hi;
                b[30] = lo;
                v.push(b);
                let mut b = [f; 32];
                b[31] = hi;
                b[0] = lo;
                v.push(b);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn c07(ctx: &Ctx) -> i32 {
    let l = order();
    let p = pow2(255) - 19u32;
    let win = ctx.pick(5_000u32, 400_000);
    let s = EdScalar::default();
    let pt = EdPoint::default().base();
    let cl = comparator_classes(&l, win);
    par_items(&cl, |b| {
        ctx.eval();
        let want = from32(b) < l;
        if want {
            ctx.nontriv();
        }
        ctx.check(s.is_canonical(b) == want, "scalar-canonical", "verdict differs from value < L", || json!({"bytes": hex::encode(b), "want": want}));
    });
    let cp: Vec<B32> = comparator_classes(&p, win)
        .into_iter()
        .flat_map(|b| {
            let mut c = b;
            c[31] ^= 0x80;
            [b, c]
        })
        .collect();
    par_items(&cp, |b| {
        ctx.eval();
        let mut y = *b;
        y[31] &= 0x7f;
        let want = from32(&y) < p;
        if want {
            ctx.nontriv();
        }
        let key = if want { "point-canonical-rejected" } else { "point-canonical-accepted" };
        ctx.check(pt.is_canonical(b) == want, key, "verdict differs from y < p", || json!({"bytes": hex::encode(b), "want": want}));
    });
    for n in 0..=80usize {
        if n == 32 {
            continue;
        }
        for f in [0u8, 1, 0x0f, 0xff] {
            ctx.eval();
            let b = vec![f; n];
            ctx.check(matches!(guard(|| s.is_canonical(&b)), Ok(false)), "scalar-length", "wrong length not reported as non-canonical", || json!(n));
            ctx.check(matches!(guard(|| pt.is_canonical(&b)), Ok(false)), "point-length", "wrong length not reported as non-canonical", || json!(n));
        }
    }
    // small order: every decodable y in the windows, both signs, several representations
    let mut ys = y_windows(ctx.pick(2048, 100_000), true);
    for t in torsion() {
        ys.push(t.enc());
        let mut e = t.enc();
        e[31] &= 0x7f;
        ys.push(e);
    }
    for (_, r) in interesting_points(100) {
        let mut e = r.enc();
        e[31] &= 0x7f;
        ys.push(e);
    }
    ys.sort();
    ys.dedup();
    let base = EdPoint::default().base();
    let one = to32(&BigUint::one());
    let torsion_enc: Vec<B32> = torsion().iter().map(|t| t.enc()).collect();
    par_items(&ys, |y| {
        for sign in [0u8, 0x80] {
            let mut b = *y;
            b[31] |= sign;
            let Ok(Some(e)) = guard(|| pdec(&b)) else { continue };
            ctx.eval();
            let r = Rp::dec(&b);
            let Some(r) = r else {
                continue; // decided by C08
            };
            let r2 = r.add(r);
            let r4 = r2.add(r2);
            let want = r4.add(r4).is_zero();
            if want {
                ctx.nontriv();
            }
            let forms = [e, rerep(&e, &base), base.mul(&sc(&one), Some(&e)), { let mut n = e; let m = n.neg(&e); let mut n2 = e; n2.neg(&m) }];
            for (i, f) in forms.iter().enumerate() {
                ctx.check(f.has_small_order() == want, "small-order", "verdict differs from 8P = 0", || json!({"bytes": hex::encode(b), "form": i, "want": want}));
            }
        }
    });
    // points reached by arithmetic
    for (i, t) in torsion_enc.iter().enumerate() {
        let Some(te) = pdec(t) else { continue };
        for k in 0..=16u32 {
            ctx.eval();
            let kb = base.mul(&sc(&to32(&BigUint::from(k))), None);
            let sum = base.add(&kb, &te);
            ctx.check(sum.has_small_order() == (k == 0), "small-order", "verdict wrong for kB + T", || json!({"k": k, "torsion": i}));
            let lt = base.mul(&sc(&to32(&l)), Some(&sum));
            ctx.check(lt.has_small_order(), "small-order", "L*(kB+T) not reported as small order", || json!({"k": k, "torsion": i}));
        }
    }
    ctx.sample("class", || json!(hex::encode(cl[1000])));
    ctx.bound(format!("{} scalar strings and {} point strings: every comparison decision class (prefix equal to the bound, any byte, 5 lower fills), every (top two bytes) and windows of +-{win} around L and p; lengths 0..=80; small order on {} y values x 2 signs x 4 representations", cl.len(), cp.len(), ys.len()));
    0
}

// ---------------------------------------------------------------- C08

struct ChunkReader<'a> {
    data: &'a [u8],
    pos: usize,
    chunk: usize,
    interrupt: bool,
    odd: bool,
}
impl std::io::Read for ChunkReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.interrupt {
            self.odd = !self.odd;
            if self.odd {
                return Err(std::io::ErrorKind::Interrupted.into());
            }
        }
        let n = buf.len().min(self.chunk).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// writer with room for `cap` bytes, taking at most `chunk` per call
struct CapWriter {
    got: Vec<u8>,
    cap: usize,
    chunk: usize,
}
impl std::io::Write for CapWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.chunk).min(self.cap - self.got.len());
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn stream_forms<T: Marshaling + Clone + PartialEq>(ctx: &Ctx, kind: &str, x: &T, fresh: &T, enc: &[u8]) {
    let case = || json!({"kind": kind, "enc": hex::encode(enc)});
    ctx.check(x.marshal_size() == 32 && enc.len() == 32, &format!("{kind}-size"), "advertised size differs from encoded size", case);
    for chunk in [1usize, 5, 31, 32, 64] {
        for interrupt in [false, true] {
            ctx.eval();
            let mut data = enc.to_vec();
            data.extend([9, 9, 9]);
            let mut r = ChunkReader { data: &data, pos: 0, chunk, interrupt, odd: false };
            let mut y = fresh.clone();
            let ok = guard(|| y.unmarshal_from(&mut r).is_ok());
            ctx.check(ok == Ok(true) && &y == x && r.pos == 32, &format!("{kind}-read"), "stream decoding differs from buffer decoding or reads too much", case);
        }
        for cap in [0usize, 1, 31, 32, 40] {
            ctx.eval();
            let mut w = CapWriter { got: vec![], cap, chunk };
            let r = guard(|| x.marshal_to(&mut w).is_ok());
            if cap >= 32 {
                ctx.check(r == Ok(true) && w.got == enc, &format!("{kind}-write"), "stream encoding differs from buffer encoding", case);
            } else {
                ctx.check(r == Ok(false), &format!("{kind}-write"), "failed write not reported", case);
            }
        }
    }
    for n in [0usize, 1, 16, 31] {
        ctx.eval();
        let mut r = ChunkReader { data: &enc[..n], pos: 0, chunk: 7, interrupt: false, odd: false };
        let mut y = fresh.clone();
        ctx.check(guard(|| y.unmarshal_from(&mut r).is_err()) == Ok(true), &format!("{kind}-read"), "truncated stream accepted", case);
    }
}

/// a random stream that can be read as well
pub struct SeedStream(blake3::OutputReader);
impl SeedStream {
    fn new(seed: &[u8]) -> SeedStream {
        let mut h = blake3::Hasher::new();
        h.update(seed);
        SeedStream(h.finalize_xof())
    }
}
impl std::io::Read for SeedStream {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.0.fill(buf);
        Ok(buf.len())
    }
}
impl Stream for SeedStream {
    fn xor_key_stream(&mut self, dst: &mut [u8], src: &[u8]) -> Result<(), StreamError> {
        let mut k = vec![0u8; src.len()];
        self.0.fill(&mut k);
        for i in 0..src.len() {
            dst[i] = src[i] ^ k[i];
        }
        Ok(())
    }
}

/// reading a random element from a stream gives what picking from the same stream gives, whatever the receiver held
pub fn random_form<T: Marshaling + BinaryMarshaler + Clone>(ctx: &Ctx, kind: &str, large: bool, receivers: &[T], pick: &(dyn Fn(T, &mut SeedStream) -> T + Sync)) {
    let e = |t: &T| t.marshal_binary().ok();
    let mut seen = std::collections::BTreeSet::new();
    let seeds = ctx.pick(64, 1024);
    for seed in 0..seeds as u32 {
        let sd = seed.to_le_bytes();
        let want = guard(|| e(&pick(receivers[0].clone(), &mut SeedStream::new(&sd))));
        // (every receiver for the first 64 streams, then the first two)
        let many = if seed < 64 { receivers.len() } else { 2 };
        for (k, r) in receivers.iter().take(many).enumerate() {
            ctx.eval();
            let case = || json!({"kind": kind, "seed": seed, "receiver": k});
            let mut x = r.clone();
            let got = guard(|| {
                x.unmarshal_from_random(&mut SeedStream::new(&sd));
                e(&x)
            });
            ctx.check(matches!(got, Ok(Some(_))) && got == want, &format!("{kind}-from-random"), "an element read from a random stream is not the one picked from that stream", case);
        }
        ctx.check(!large || seen.insert(want), &format!("{kind}-from-random-repeats"), "different random streams give the same element", || json!({"kind": kind, "seed": seed}));
    }
}

/// every value that differs from `v` in one integer or one array of integers (or two arrays exchanged)
fn serde_faults(v: &serde_json::Value) -> Vec<(String, serde_json::Value)> {
    fn walk(v: &serde_json::Value, path: String, leaves: &mut Vec<(String, i64)>, arrays: &mut Vec<(String, serde_json::Value)>) {
        match v {
            serde_json::Value::Number(n) => {
                if let Some(i) = n.as_i64() {
                    leaves.push((path, i))
                }
            }
            serde_json::Value::Array(a) => {
                arrays.push((path.clone(), v.clone()));
                for (i, x) in a.iter().enumerate() {
                    walk(x, format!("{path}/{i}"), leaves, arrays);
                }
            }
            serde_json::Value::Object(o) => {
                for (k, x) in o {
                    walk(x, format!("{path}/{k}"), leaves, arrays);
                }
            }
            _ => {}
        }
    }
    let (mut leaves, mut arrays) = (vec![], vec![]);
    walk(v, String::new(), &mut leaves, &mut arrays);
    let mut out = vec![];
    let mut put = |p: &[(&str, serde_json::Value)], what: String| {
        let mut m = v.clone();
        for (path, x) in p {
            if let Some(e) = m.pointer_mut(path) {
                *e = x.clone();
            }
        }
        if m != *v {
            out.push((what, m));
        }
    };
    for (path, i) in &leaves {
        for x in [i + 1, i - 1, -i, 0, 1, i + 19, i - 19, i + (1 << 25), i - (1 << 25), i + (1 << 26), i - (1 << 26), i + (1 << 30), i32::MAX as i64, i32::MIN as i64] {
            put(&[(path, json!(x))], format!("{path} = {x}"));
        }
    }
    for (path, a) in &arrays {
        let n = a.as_array().map(|a| a.len()).unwrap_or(0);
        for head in [0i64, 1, 2, -1] {
            let mut z = vec![0i64; n];
            if n > 0 {
                z[0] = head;
            }
            put(&[(path, json!(z))], format!("{path} = [{head}, 0, ..]"));
        }
        let neg: Option<Vec<i64>> = a.as_array().and_then(|a| a.iter().map(|x| x.as_i64().map(|x| -x)).collect());
        if let Some(neg) = neg {
            put(&[(path, json!(neg))], format!("{path} negated"));
        }
        for (q, b) in &arrays {
            put(&[(path, b.clone())], format!("{path} = {q}"));
            put(&[(path, b.clone()), (q, a.clone())], format!("{path} <-> {q}"));
        }
    }
    // several arrays at once
    for (i, (p1, a)) in arrays.iter().enumerate() {
        for (p2, b) in &arrays[i + 1..] {
            let f = |v: &serde_json::Value, k: i64| json!(v.as_array().map(|a| a.iter().map(|x| x.as_i64().map(|x| k * x)).collect::<Vec<_>>()));
            for k in [0, 2, -1] {
                put(&[(p1, f(a, k)), (p2, f(b, k))], format!("{p1} and {p2} times {k}"));
            }
        }
    }
    out
}

/// A point read from its serde form (the way commitments inside a deal travel) is a point of the curve: it has
/// an encoding, and adding it to others gives what the reference gives for the point of that encoding.
fn serde_form(ctx: &Ctx, base: &EdPoint) {
    let unset = bincode::serialize(&EdPoint::default()).unwrap_or_default();
    let others: Vec<(Rp, EdPoint)> = [Rp::base(), Rp::base().mul(&pow2(100)), torsion()[1], torsion()[3]].into_iter().filter_map(|r| pdec(&r.enc()).map(|e| (r, e))).collect();
    let judge = |e: &EdPoint, case: &dyn Fn() -> serde_json::Value| {
        if bincode::serialize(e).ok().as_deref() == Some(&unset[..]) {
            return;
        }
        let r = guard(|| {
            let enc: [u8; 32] = penc(e).try_into().ok()?;
            let r = Rp::dec(&enc)?;
            let mut ok = r.matches(&enc) && r.add(r).matches(&penc(&EdPoint::default().add(e, e)));
            for (rq, q) in &others {
                ok &= r.add(*rq).matches(&penc(&EdPoint::default().add(e, q)));
                ok &= r.add(*rq).matches(&penc(&EdPoint::default().add(q, e)));
                ok &= r.add(rq.neg()).matches(&penc(&EdPoint::default().sub(e, q)));
                ok &= rq.add(r.neg()).matches(&penc(&EdPoint::default().sub(q, e)));
            }
            ok.then_some(())
        });
        ctx.check(r == Ok(Some(())), "point-serde-off-curve", "a serialised form that is no curve point was accepted", case);
    };
    let pts: Vec<(String, EdPoint)> = interesting_points(ctx.pick(8, 40)).into_iter().filter_map(|(n, r)| to_ed(ctx, &n, &r).map(|e| (n, e))).flat_map(|(n, e)| [(n.clone(), e), (format!("{n} (projective)"), rerep(&e, base))]).collect();
    par_items(&pts, |(n, e)| {
        let Ok(b) = bincode::serialize(e) else { return };
        let Ok(j) = serde_json::to_value(e) else { return };
        for i in 0..b.len() {
            for bit in 0..8 {
                ctx.eval();
                let mut m = b.clone();
                m[i] ^= 1 << bit;
                let case = || json!({"p": n, "bincode": hex::encode(&m)});
                let Some(got) = ctx.nopanic("point-serde-decode", case, || bincode::deserialize::<EdPoint>(&m).ok()) else { continue };
                match got {
                    Some(x) => judge(&x, &case),
                    None => ctx.nontriv(),
                }
            }
            ctx.check(guard(|| bincode::deserialize::<EdPoint>(&b[..i]).is_err()) == Ok(true), "point-serde-decode", "a truncated serialised form was accepted", || json!({"p": n, "len": i}));
        }
        for (what, m) in serde_faults(&j) {
            ctx.eval();
            let case = || json!({"p": n, "fault": what, "json": m});
            let Some(got) = ctx.nopanic("point-serde-decode", case, || serde_json::from_value::<EdPoint>(m.clone()).ok()) else { continue };
            match got {
                Some(x) => judge(&x, &case),
                None => ctx.nontriv(),
            }
        }
    });
}

pub fn c08(ctx: &Ctx) -> i32 {
    let mut ys = y_windows(ctx.pick(8192, 600_000), true);
    let p = pow2(255) - 19u32;
    for d in 0..=40u32 {
        for b in [&p + d, &p - d] {
            if b < pow2(255) {
                ys.push(to32(&b));
            }
        }
    }
    for b in [0x55u8, 0x7f, 0x01] {
        ys.push([b; 32]);
    }
    for i in 0..32 {
        for x in 0..=255u8 {
            let mut b = [0u8; 32];
            b[i] = x;
            ys.push(b);
            let mut b = [0xffu8; 32];
            b[i] = x;
            b[31] &= 0x7f;
            ys.push(b);
        }
    }
    for b in ys.iter_mut() {
        b[31] &= 0x7f;
    }
    ys.sort();
    ys.dedup();
    let base = EdPoint::default().base();
    let rb = Rp::base();
    par_items(&ys, |y| {
        for sign in [0u8, 0x80] {
            let mut b = *y;
            b[31] |= sign;
            ctx.eval();
            let case = || json!({"bytes": hex::encode(b)});
            let Some(got) = ctx.nopanic("point-decode", case, || pdec(&b)) else { continue };
            let want = Rp::dec(&b);
            let canon = from32(y) < p;
            match (got, want) {
                (Some(e), Some(r)) => {
                    ctx.nontriv();
                    // the decoded coordinates are the encoded ones, and T is consistent (adding uses it)
                    ctx.check(r.matches(&penc(&e)), "point-decode", "decoded coordinates differ", case);
                    ctx.check(r.add(rb).matches(&penc(&base.add(&e, &base))) && r.add(rb.neg()).matches(&penc(&base.sub(&e, &base))), "point-decode", "decoded element is not the encoded curve point (sum with the base point is wrong)", case);
                    if canon && !(r.x.is_zero() && sign != 0) {
                        ctx.check(penc(&e) == b, "point-roundtrip", "re-encoding differs", case);
                    }
                    // decoding into a used receiver gives the same
                    let mut u = base;
                    ctx.check(u.unmarshal_binary(&b).is_ok() && penc(&u) == penc(&e), "point-decode", "result depends on the receiver", case);
                }
                (None, Some(r)) => {
                    // a non-canonical name of a point may be refused, a canonical one may not
                    ctx.check(!(canon && !(r.x.is_zero() && sign != 0)), "point-refused", "encoding of a curve point refused", case);
                }
                (Some(_), None) => ctx.fail("point-accepted", "bytes that name no curve point were accepted", case()),
                (None, None) => {}
            }
        }
    });
    // encode: equal elements have one encoding, all representations
    let pts: Vec<(String, Rp, EdPoint)> = interesting_points(40).into_iter().filter_map(|(n, r)| to_ed(ctx, &n, &r).map(|e| (n, r, e))).collect();
    par_items(&pts, |(n, r, e)| {
        let enc = r.enc();
        for (_, _, q) in pts.iter().step_by(3) {
            ctx.eval();
            let x = rerep(e, q);
            ctx.check(penc(&x) == enc, "point-encode", "encoding depends on how the element was computed", || json!({"p": n}));
            let Some(back) = pdec(&penc(&x)) else {
                ctx.fail("point-roundtrip", "own encoding refused", json!({"p": n}));
                continue;
            };
            ctx.check(back == x && back == *e, "point-roundtrip", "decoded element differs", || json!({"p": n}));
        }
        stream_forms(ctx, "point", e, &base, &enc);
        let bc = bincode::serialize(e).ok().and_then(|b| bincode::deserialize::<EdPoint>(&b).ok());
        ctx.check(bc.map(|b| penc(&b) == enc).unwrap_or(false), "point-serde", "serde round trip changes the element", || json!({"p": n}));
    });
    for n in 0..=100usize {
        if n == 32 {
            continue;
        }
        for f in [0u8, 1, 0xff] {
            ctx.eval();
            let mut b = vec![0u8; n];
            if n > 0 {
                b[0] = f;
            }
            ctx.check(matches!(guard(|| pdec(&b).is_none()), Ok(true)), "point-length", "wrong length accepted", || json!(n));
            ctx.check(matches!(guard(|| EdScalar::default().unmarshal_binary(&b).is_err()), Ok(true)), "scalar-length", "wrong length accepted", || json!(n));
        }
    }
    // scalars
    let l = order();
    let al = alphabet(true);
    par_items(&al, |b| {
        ctx.eval();
        let case = || json!({"scalar": hex::encode(b)});
        let mut s = sc(&[0x5a; 32]);
        ctx.check(s.unmarshal_binary(b).is_ok(), "scalar-decode", "32 byte encoding refused", case);
        let Ok(e) = s.marshal_binary() else {
            ctx.fail("scalar-encode", "encoding failed", case());
            return;
        };
        let want = to32(&(from32(b) % &l));
        ctx.check(e == want, "scalar-encode", "encoding is not the value modulo L", case);
        let mut t = sc(&[0xa5; 32]);
        ctx.check(t.unmarshal_binary(&e).is_ok(), "scalar-decode", "own encoding refused", case);
        ctx.check(t.marshal_binary().ok().as_deref() == Some(&want[..]), "scalar-roundtrip", "value changed in a round trip", case);
        if from32(b) < l {
            ctx.nontriv();
            ctx.check(t == s, "scalar-roundtrip", "decoded scalar differs", case);
        }
        stream_forms(ctx, "scalar", &t, &sc(&[0x11; 32]), &want);
        let bc = bincode::serialize(&s).ok().and_then(|x| bincode::deserialize::<EdScalar>(&x).ok());
        ctx.check(bc.map(|x| x.marshal_binary().unwrap() == want).unwrap_or(false), "scalar-serde", "serde round trip changes the scalar", case);
    });
    random_form(ctx, "point", true, &[base, EdPoint::default(), to_ed(ctx, "2B", &rb.add(rb)).unwrap_or(base)], &|p: EdPoint, x| p.pick(x));
    random_form(ctx, "scalar", true, &[sc(&[0x11; 32]), EdScalar::default(), sc(&[0xff; 32])], &|s: EdScalar, x| s.pick(x));
    serde_form(ctx, &base);
    ctx.bound("serialised (bincode, JSON) form of points: every single bit, every truncation, every coordinate or limb replaced by the menu");
    ctx.sample("bytes", || json!(hex::encode(ys[ys.len() / 2])));
    ctx.bound(format!("{} y values x both sign bits; lengths 0..=100; chunked, interrupted, truncated readers and short writers", ys.len()));
    0
}

// ---------------------------------------------------------------- C31

fn h<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
fn order_laws<T: Ord + Clone + Sync>(ctx: &Ctx, kind: &str, v: &[(String, T, Vec<u8>)]) {
    use std::cmp::Ordering::*;
    let n = v.len();
    let mm = std::sync::Mutex::new(vec![vec![Equal; n]; n]);
    let idx: Vec<usize> = (0..n).collect();
    par_items(&idx, |&i| {
        let mut row = vec![Equal; n];
        for j in 0..n {
            ctx.eval();
            let (a, b) = (&v[i], &v[j]);
            let case = || json!({"a": a.0, "b": b.0});
            let same = a.2 == b.2;
            if same && i != j {
                ctx.nontriv();
            }
            ctx.check((a.1 == b.1) == same && (a.1 != b.1) != same, &format!("{kind}-eq"), "equality differs from equality of encodings", case);
            let c = a.1.cmp(&b.1);
            row[j] = c;
            ctx.check((c == Equal) == same, &format!("{kind}-cmp"), "comparison says equal exactly when it should not", case);
            ctx.check(a.1.partial_cmp(&b.1) == Some(c), &format!("{kind}-partial"), "partial_cmp differs from cmp", case);
            ctx.check((a.1 < b.1) == (c == Less) && (a.1 > b.1) == (c == Greater) && (a.1 <= b.1) == (c != Greater), &format!("{kind}-partial"), "operators differ from cmp", case);
        }
        mm.lock().unwrap()[i] = row;
    });
    let m = mm.into_inner().unwrap();
    for i in 0..n {
        for j in 0..n {
            ctx.check(m[i][j] == m[j][i].reverse(), &format!("{kind}-antisym"), "comparison is not antisymmetric", || json!({"a": v[i].0, "b": v[j].0}));
        }
    }
    for i in 0..n {
        for j in 0..n {
            if m[i][j] == Greater {
                continue;
            }
            for k in 0..n {
                if m[j][k] != Greater && m[i][k] == Greater {
                    ctx.fail(&format!("{kind}-trans"), "comparison is not transitive", json!({"a": v[i].0, "b": v[j].0, "c": v[k].0}));
                }
            }
        }
    }
    ctx.evals_add((n * n * n) as u64);
}

pub fn c31(ctx: &Ctx) -> i32 {
    let base = EdPoint::default().base();
    let mut pv: Vec<(String, EdPoint, Vec<u8>)> = vec![];
    let pts = interesting_points(ctx.pick(12, 60));
    let q = pdec(&pts[7].1.enc()).unwrap_or(base);
    for (n, r) in &pts {
        let Some(e) = to_ed(ctx, n, r) else { continue };
        let enc = r.enc().to_vec();
        pv.push((format!("{n}"), e, enc.clone()));
        pv.push((format!("{n} via (p+q)-q"), rerep(&e, &q), enc.clone()));
        pv.push((format!("{n} via 1*p"), base.mul(&sc(&to32(&BigUint::one())), Some(&e)), enc.clone()));
        let mut t = base;
        pv.push((format!("{n} via set"), t.set(&rerep(&e, &base)), enc.clone()));
        if let Some(b) = bincode::serialize(&rerep(&e, &q)).ok().and_then(|b| bincode::deserialize(&b).ok()) {
            pv.push((format!("{n} via serde"), b, enc.clone()));
        }
        if let Some(x) = vartime(&e) {
            pv.push((format!("{n} var-time flag"), x, enc.clone()));
        }
    }
    // non-canonical names of the same point
    for d in 0..19u32 {
        let b = to32(&(pow2(255) - 19u32 + d));
        if let (Some(e), Some(r)) = (pdec(&b), Rp::dec(&b)) {
            pv.push((format!("non-canonical y=p+{d}"), e, r.enc().to_vec()));
        }
    }
    for (n, e, enc) in &pv {
        ctx.check(&penc(e) == enc, "point-encode", "encoding depends on the representation", || json!(n));
        #[allow(clippy::clone_on_copy)]
        let c = e.clone();
        ctx.check(c == *e && penc(&c) == *enc, "point-copy", "copy differs", || json!(n));
        // a copy taken by the assignment operation equals the source and does not follow later changes of it
        let mut t = base;
        let mut src = *e;
        let s = t.set(&src);
        src = base.add(e, &base);
        ctx.check(s == *e && t == *e && src != *e, "point-set", "assignment does not preserve equality", || json!(n));
    }
    for a in &pv {
        for b in &pv {
            if a.2 == b.2 {
                ctx.eval();
                ctx.check(h(&a.1) == h(&b.1), "point-hash", "equal elements hash differently", || json!({"a": a.0, "b": b.0}));
            }
        }
    }
    order_laws(ctx, "point", &pv);
    let l = order();
    let mut sv: Vec<(String, EdScalar, Vec<u8>)> = vec![];
    for x in [0u32, 1, 2, 255, 256, 65535] {
        for k in 0..=15u32 {
            for neg in [false, true] {
                let v = if neg {
                    if k == 0 { continue }
                    &l * k - x
                } else {
                    &l * k + x
                };
                if v < pow2(256) {
                    sv.push((format!("{}{x} + {k}L", if neg { "-" } else { "" }), sc(&to32(&v)), to32(&(v % &l)).to_vec()));
                }
            }
        }
    }
    for b in alphabet(false).iter().step_by(ctx.pick(6, 1)) {
        sv.push((hex::encode(b), sc(b), to32(&(from32(b) % &l)).to_vec()));
    }
    for (n, s, e) in &sv {
        ctx.check(s.marshal_binary().ok().as_ref() == Some(e), "scalar-encode", "encoding is not the value modulo L", || json!(n));
        let junk = sc(&[0xd7; 32]);
        ctx.check(junk.set(s) == *s, "scalar-set", "assignment does not preserve equality", || json!(n));
    }
    order_laws(ctx, "scalar", &sv);
    ctx.sample("pair", || json!({"a": pv[0].0, "b": pv[1].0}));
    ctx.bound(format!("{} point representations and {} scalar representations, all pairs and triples", pv.len(), sv.len()));
    0
}

// ---------------------------------------------------------------- C25

/// environment stream: a scripted list of 32-byte blocks, then a deterministic pseudo-random tail
struct BlockStream {
    blocks: Vec<B32>,
    n: usize,
    tail: Box<dyn kyber_rs::XOF>,
}
impl Stream for BlockStream {
    fn xor_key_stream(&mut self, dst: &mut [u8], src: &[u8]) -> Result<(), StreamError> {
        if self.n < self.blocks.len() && src.len() == 32 {
            for i in 0..32 {
                dst[i] = src[i] ^ self.blocks[self.n][i];
            }
            self.n += 1;
            return Ok(());
        }
        self.tail.xor_key_stream(dst, src)
    }
}
fn bstream(blocks: Vec<B32>, seed: u64) -> BlockStream {
    BlockStream { blocks, n: 0, tail: suite().xof(Some(&seed.to_le_bytes())) }
}

fn sound(ctx: &Ctx, key: &str, p: &EdPoint, case: &dyn Fn() -> serde_json::Value) {
    ctx.check(matches!(guard(|| penc(p)), Ok(_)), key, "no encoding", || case());
    let e = penc(p);
    let b: B32 = e.clone().try_into().unwrap();
    let Some(r) = Rp::dec(&b) else {
        ctx.fail(key, "point is not on the curve", case());
        return;
    };
    ctx.check(r.mul(&order()).is_zero(), key, "point is outside the prime-order subgroup", || case());
    ctx.check(!r.is_zero(), key, "point is the neutral element", || case());
    ctx.check(pdec(&e).map(|q| q == *p).unwrap_or(false), key, "point does not survive encoding", || case());
}

pub fn c25(ctx: &Ctx) -> i32 {
    let base = EdPoint::default().base();
    let elen = base.embed_len();
    let mut data: Vec<Vec<u8>> = vec![];
    for n in 0..=40usize {
        for f in [0u8, 1, 0x7f, 0xff] {
            data.push(vec![f; n]);
        }
        data.push((0..n).map(|i| (i * 37 + 11) as u8).collect());
    }
    for x in 0..=255u8 {
        data.push(vec![x]);
    }
    if ctx.thorough() {
        for x in 0..65536u32 {
            data.push(vec![(x >> 8) as u8, x as u8]);
        }
    }
    // scripted first answers of the random source: zero, ones, torsion encodings, p-boundaries
    let mut firsts: Vec<Vec<B32>> = vec![vec![]];
    firsts.push(vec![[0; 32]]);
    firsts.push(vec![[0xff; 32]]);
    firsts.push(vec![[0; 32], [0xff; 32], [0; 32]]);
    let tors: Vec<B32> = torsion().iter().map(|t| t.enc()).collect();
    par_items(&data, |d| {
        let few = if d.len() <= 2 && !ctx.thorough() || d.len() % 8 == 0 { firsts.len() } else { 1 };
        for f in firsts.iter().take(few) {
            ctx.eval();
            let case = || json!({"data": hex::encode(d), "stream": f.iter().map(hex::encode).collect::<Vec<_>>()});
            name_case(&case().to_string());
            let mut st = bstream(f.clone(), fnv(d));
            let Some(p) = ctx.nopanic("embed", case, || base.embed(Some(d), &mut st)) else { continue };
            ctx.nontriv();
            let want = &d[..d.len().min(elen)];
            match guard(|| p.data()) {
                Ok(Ok(x)) => {
                    ctx.check(x == want, "embed-data", "extracted data differs from the embedded data", case);
                }
                Ok(Err(e)) => ctx.fail("embed-data", format!("extraction failed: {e}"), case()),
                Err(e) => ctx.fail("embed-data", format!("panic {e}"), case()),
            }
            sound(ctx, "embed-sound", &p, &case);
            if let Some(q) = pdec(&penc(&p)) {
                ctx.check(q.data().ok().as_deref() == Some(want), "embed-data", "data lost by encoding the point", case);
            }
        }
    });
    ctx.check((1..=31).contains(&elen), "embed-len", "advertised length impossible", || json!(elen));
    // picked points, with every torsion encoding / degenerate block as first answer
    let mut blocks: Vec<Vec<B32>> = tors.iter().map(|t| vec![*t]).collect();
    blocks.push(tors.clone());
    blocks.extend([vec![[0; 32]], vec![[0xff; 32]], vec![{ let mut b = [0u8; 32]; b[0] = 1; b }]]);
    for y in 2..ctx.pick(60u8, 250) {
        let mut b = [0u8; 32];
        b[0] = y;
        blocks.push(vec![b]);
    }
    par_items(&blocks, |f| {
        ctx.eval();
        let case = || json!({"stream": f.iter().map(hex::encode).collect::<Vec<_>>()});
        name_case(&case().to_string());
        for kind in ["pick", "embed-none", "random"] {
            let mut st = bstream(f.clone(), 5);
            let r = ctx.nopanic("pick", case, || match kind {
                "pick" => base.pick(&mut st),
                "embed-none" => EdPoint::default().embed(None, &mut st),
                _ => EdPoint::default().pick(&mut st),
            });
            if let Some(p) = r {
                ctx.nontriv();
                sound(ctx, "pick-sound", &p, &case);
            }
        }
    });
    // extraction from arbitrary points: bounded or an error
    let ys = y_windows(ctx.pick(2048, 40_000), true);
    par_items(&ys, |y| {
        if let Ok(Some(p)) = guard(|| pdec(y)) {
            ctx.eval();
            let e = penc(&p);
            match guard(|| p.data()) {
                Ok(Ok(d)) => {
                    ctx.check(d.len() <= elen, "data-any", "extraction exceeds the advertised length", || json!(hex::encode(y)));
                    ctx.check(e[0] as usize == d.len() && e[1..1 + d.len()] == d[..], "data-any", "extracted bytes are not those embedded", || json!(hex::encode(y)));
                }
                Ok(Err(_)) => {
                    ctx.check(e[0] as usize > elen, "data-any", "extraction refused although the length is in range", || json!(hex::encode(y)));
                }
                Err(m) => ctx.fail("data-any", format!("panic {m}"), json!(hex::encode(y))),
            }
        }
    });
    ctx.sample("data", || json!(hex::encode(&data[33])));
    ctx.bound(format!("{} data strings (all lengths 0..=40, all single bytes{}) x scripted random answers; picks with {} scripted first answers; extraction on {} points", data.len(), if ctx.thorough() { ", all two-byte strings" } else { "" }, blocks.len(), ys.len()));
    0
}

// ---------------------------------------------------------------- C26

/// stream that fails from the n-th call on
struct FailAfter(usize, Box<dyn kyber_rs::XOF>);
impl Stream for FailAfter {
    fn xor_key_stream(&mut self, dst: &mut [u8], src: &[u8]) -> Result<(), StreamError> {
        if self.0 == 0 {
            return Err(StreamError::ReadersFailure);
        }
        self.0 -= 1;
        self.1.xor_key_stream(dst, src)
    }
}

pub fn c26(ctx: &Ctx) -> i32 {
    let c = Curve::new();
    let base = EdPoint::default().base();
    // seed-derived keys: every seed length and pattern
    let mut seeds: Vec<Vec<u8>> = vec![];
    for n in 0..=130usize {
        for f in [0u8, 1, 0x80, 0xff] {
            seeds.push(vec![f; n]);
        }
    }
    for i in 0..32 {
        for x in 0..=255u8 {
            let mut s = vec![0u8; 32];
            s[i] = x;
            seeds.push(s);
        }
    }
    seeds.sort();
    seeds.dedup();
    let mut keys: std::collections::HashMap<Vec<u8>, Vec<u8>> = Default::default();
    for s in &seeds {
        ctx.eval();
        let case = || json!({"seed": hex::encode(s)});
        let Some((k, inp, pre)) = ctx.nopanic("seed-key", case, || {
            let (k, i, p) = c.new_key_and_seed_with_input(s);
            (k, i.to_vec(), p)
        }) else { continue };
        let d = Sha512::digest(s);
        let mut w: B32 = d[..32].try_into().unwrap();
        w[0] &= 248;
        w[31] &= 127;
        w[31] |= 64;
        ctx.check(k.v == w, "seed-key", "derived private key is not the clamped hash", case);
        ctx.check(inp == *s && pre == d[32..], "seed-key", "returned seed or prefix wrong", case);
        let k2 = c.new_key_and_seed_with_input(s).0;
        ctx.check(k2.v == k.v, "seed-key", "derivation is not deterministic", case);
        if let Some(o) = keys.insert(k.v.to_vec(), s.clone()) {
            ctx.fail("seed-distinct", "two seeds gave one key", json!({"a": hex::encode(o), "b": hex::encode(s)}));
        }
    }
    ctx.nontriv_add(keys.len() as u64);
    // stream-derived keys: the seed is exactly what the stream answered
    let mut kset = std::collections::HashSet::new();
    for i in 0..ctx.pick(600u32, 8000) {
        ctx.eval();
        let case = || json!({"stream": i});
        let mut block = [0u8; 32];
        match i {
            0..=255 => block[0] = i as u8,
            256..=511 => block[31] = i as u8,
            _ => block[4..8].copy_from_slice(&i.to_le_bytes()),
        }
        if i == 256 {
            block[30] = 1; // distinct from the all-zero block
        }
        let mut st = bstream(vec![block], 7);
        let Some(r) = ctx.nopanic("stream-key", case, || c.new_key_and_seed(&mut st)) else { continue };
        let Ok((k, seed, pre)) = r else {
            ctx.fail("stream-key", "key generation failed on a healthy source", case());
            continue;
        };
        let (k2, _, pre2) = c.new_key_and_seed_with_input(&seed);
        ctx.check(seed.len() == 32 && k.v == k2.v && pre == pre2, "stream-key", "key, seed and prefix do not belong together", case);
        ctx.check(k.v[0] & 7 == 0 && k.v[31] & 0xc0 == 0x40, "stream-key", "key is not clamped", case);
        ctx.check(kset.insert(k.v), "stream-distinct", "distinct random answers gave one key", case);
        ctx.nontriv();
        let mut st = bstream(vec![block], 7);
        let mut st2 = bstream(vec![block], 7);
        let g1 = guard(|| c.new_key(&mut st));
        let g2 = guard(|| suite().new_key(&mut st2));
        for g in [g1, g2] {
            match g {
                Ok(Ok(Some(x))) => {
                    ctx.check(x.v == k.v, "generator", "generator key differs from seed-derived key", case);
                }
                _ => ctx.fail("generator", "generator failed", case()),
            }
        }
    }
    // failing source: error, never a fixed key
    ctx.eval();
    let xof = || suite().xof(Some(b"x"));
    ctx.check(matches!(guard(|| c.new_key_and_seed(&mut FailAfter(0, xof())).is_err()), Ok(true)), "failing-source", "failing source did not give an error", || json!("new_key_and_seed"));
    ctx.check(matches!(guard(|| c.new_key(&mut FailAfter(0, xof())).is_err()), Ok(true)), "failing-source", "failing source did not give an error", || json!("Curve::new_key"));
    ctx.check(matches!(guard(|| suite().new_key(&mut FailAfter(0, xof())).is_err()), Ok(true)), "failing-source", "failing source did not give an error", || json!("SuiteEd25519::new_key"));
    let r = guard(|| kyber_rs::sign::eddsa::EdDSA::new(&mut FailAfter(0, xof())).is_err());
    ctx.check(r != Ok(false), "failing-source", "failing source did not give an error", || json!("EdDSA::new"));
    // picking a scalar has no error channel: it must not return a value that no randomness went into
    name_case("Scalar::pick on a failing source");
    ctx.check(guard(|| EdScalar::default().pick(&mut FailAfter(0, xof()))).is_err(), "failing-source", "picking from a dead source returned a scalar", || json!("Scalar::pick"));
    name_case("");
    // generated pairs match, on the real suite and on a suite without a generator
    let mut privs = std::collections::HashSet::new();
    for i in 0..ctx.pick(64, 1000) {
        ctx.eval();
        match guard(|| new_key_pair(&suite())) {
            Ok(Ok(kp)) => {
                let want = Rp::base().mul(&from32(&kp.private.v)).enc();
                ctx.check(penc(&kp.public) == want && kp.public == base.mul(&kp.private, None), "pair", "public key is not base * private", || json!(i));
                ctx.check(kp.private.v[0] & 7 == 0 && kp.private.v[31] & 0xc0 == 0x40, "pair", "private key is not clamped", || json!(i));
                ctx.check(privs.insert(kp.private.v), "pair-distinct", "two generated pairs coincide", || json!(i));
            }
            _ => ctx.fail("pair", "key pair generation failed", json!(i)),
        }
    }
    use crate::toy::*;
    for v in 0..101u64 {
        ctx.eval();
        script_rng(vec![v]);
        match guard(|| new_key_pair(&Toy::<101>)) {
            Ok(Ok(kp)) => {
                ctx.check(kp.private == TS(v) && kp.public == TP(v), "pair-toy", "pair without generator is not (random scalar, base * scalar)", || json!(v));
                ctx.nontriv();
            }
            _ => ctx.fail("pair-toy", "key pair generation failed", json!(v)),
        }
    }
    ctx.sample("seed", || json!(hex::encode(&seeds[40])));
    ctx.bound(format!("{} seeds, scripted random sources, dead source on every generator; scalar domain of the toy group enumerated completely", seeds.len()));
    0
}
