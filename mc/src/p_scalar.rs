//! C05 / C30: the Ed25519 scalar field against big-integer arithmetic over a boundary lattice of
//! 256-bit operands (limb-boundary patterns, neighbourhoods of multiples of the order, powers of two).
use crate::engine::*;
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler, Marshaling};
use kyber_rs::group::edwards25519::{scalar, FactoredScalar, Scalar as EdScalar, SimpleCTScalar};
use kyber_rs::Scalar;
use num_bigint_dig::{BigInt, BigUint};
use num_traits::{One, Zero};
use serde_json::json;

pub type B32 = [u8; 32];

pub fn order() -> BigUint {
    (BigUint::one() << 252) + "27742317777372353535851937790883648493".parse::<BigUint>().unwrap()
}
pub fn to32(x: &BigUint) -> B32 {
    let mut v = x.to_bytes_le();
    v.resize(32, 0);
    v.try_into().unwrap()
}
pub fn from32(b: &[u8]) -> BigUint {
    BigUint::from_bytes_le(b)
}
fn pow2(k: usize) -> BigUint {
    BigUint::one() << k
}

/// boundary alphabet: multiples of the order +-d, powers of two +-1, limb patterns
pub fn alphabet(dense: bool) -> Vec<B32> {
    let l = order();
    let top = pow2(256);
    let mut v: Vec<BigUint> = vec![];
    for k in 0..=15u32 {
        for d in 0..=(if dense { 3u32 } else { 2 }) {
            v.push(&l * k + d);
            if k > 0 {
                v.push(&l * k - d);
            }
        }
    }
    for k in 0..256 {
        if dense || k % 21 <= 1 || k % 21 == 20 || k % 32 == 0 || k > 250 {
            v.push(pow2(k));
            v.push(pow2(k) - 1u32);
            v.push(&top - pow2(k));
        }
    }
    v.push(&top - 1u32);
    v.push(&l / 2u32);
    v.push(&l / 2u32 + 1u32);
    for byte in [0x55u8, 0xaa, 0x80, 0x7f, 0x0f, 0xf0] {
        v.push(from32(&[byte; 32]));
    }
    let mut v: Vec<B32> = v.into_iter().filter(|x| x < &top).map(|x| to32(&x)).collect();
    v.sort();
    v.dedup();
    v
}
/// every pattern of {0, max} over the twelve 21-bit limbs
pub fn limb_patterns() -> Vec<B32> {
    (0..4096u32)
        .map(|m| {
            let mut x = BigUint::zero();
            for i in 0..12 {
                if (m >> i) & 1 == 1 {
                    let w = if i == 11 { 25 } else { 21 };
                    x += (pow2(w) - 1u32) << (21 * i);
                }
            }
            to32(&x)
        })
        .collect()
}
/// one-hot limbs with boundary values
pub fn one_hot() -> Vec<B32> {
    let mut v = vec![];
    for i in 0..12usize {
        for x in [1u32, 1 << 20, (1 << 20) - 1, (1 << 21) - 1, (1 << 20) + 1] {
            v.push(to32(&(BigUint::from(x) << (21 * i))));
        }
    }
    v
}

pub trait Sc: Scalar + Copy + Send + Sync {
    fn name() -> &'static str;
}
impl Sc for EdScalar {
    fn name() -> &'static str {
        "Scalar"
    }
}
impl Sc for SimpleCTScalar {
    fn name() -> &'static str {
        "SimpleCTScalar"
    }
}
impl Sc for FactoredScalar {
    fn name() -> &'static str {
        "FactoredScalar"
    }
}
pub fn mk<T: Sc>(b: &B32) -> T {
    let mut s = T::default();
    s.unmarshal_binary(b).expect("32 bytes");
    s
}
fn enc<T: Sc>(s: &T) -> Vec<u8> {
    // raw representation, not reduced again by marshalling
    bincode::serialize(s).unwrap()
}
fn modl(x: BigUint, l: &BigUint) -> B32 {
    to32(&(x % l))
}

fn binop<T: Sc>(ctx: &Ctx, a: &B32, b: &B32, l: &BigUint, junk: &T) {
    let (sa, sb) = (mk::<T>(a), mk::<T>(b));
    let (x, y) = (from32(a), from32(b));
    let case = |op: &str| json!({"type": T::name(), "op": op, "a": hex::encode(a), "b": hex::encode(b)});
    ctx.evals_add(3);
    let k = |op: &str| format!("{}-{op}", T::name());
    let r = enc(&(sa + sb));
    ctx.check(r == modl(&x + &y, l), &k("add"), "sum differs from integer arithmetic or is not reduced", || case("add"));
    let r = enc(&(sa * sb));
    ctx.check(r == modl(&x * &y, l), &k("mul"), "product differs from integer arithmetic or is not reduced", || case("mul"));
    let r = enc(&junk.sub(&sa, &sb));
    let want = modl(&x % l + l - &y % l, l);
    ctx.check(r == want, &k("sub"), "difference differs from integer arithmetic or is not reduced", || case("sub"));
}

fn unop<T: Sc>(ctx: &Ctx, a: &B32, l: &BigUint, junk: &T) {
    let sa = mk::<T>(a);
    let x = from32(a);
    let case = |op: &str| json!({"type": T::name(), "op": op, "a": hex::encode(a)});
    let k = |op: &str| format!("{}-{op}", T::name());
    ctx.evals_add(5);
    ctx.check(enc(&junk.neg(&sa)) == modl(l - &x % l, l), &k("neg"), "negation wrong or not reduced", || case("neg"));
    let i = junk.inv(&sa);
    let one = to32(&BigUint::one());
    let zero = to32(&BigUint::zero());
    if (&x % l).is_zero() {
        ctx.check(enc(&i) == zero, &k("inv"), "inverse of zero is not zero", || case("inv"));
    } else {
        ctx.nontriv();
        let xi = from32(&enc(&i));
        ctx.check(&xi < l && (xi * &x) % l == BigUint::one(), &k("inv"), "a * inv(a) != 1", || case("inv"));
        ctx.check(enc(&(sa * i)) == one, &k("inv"), "scalar product a * inv(a) != 1", || case("inv"));
        ctx.check(enc(&junk.div(&sa, &sa)) == one, &k("div"), "a / a != 1", || case("div"));
    }
    // byte reduction
    ctx.check(enc(&junk.set_bytes(a)) == modl(x.clone(), l), &k("set-bytes"), "byte reduction wrong", || case("set_bytes"));
    ctx.check(enc(&junk.set(&sa)) == enc(&sa), &k("set"), "assignment wrong", || case("set"));
    ctx.check(enc(&junk.zero()) == zero && enc(&junk.one()) == one, &k("const"), "zero/one wrong", || case("const"));
}

fn ints<T: Sc>(ctx: &Ctx, l: &BigUint, junks: &[T]) {
    let mut vs: Vec<i64> = (-300..=300).collect();
    for k in 0..63 {
        for d in [-1i64, 0, 1] {
            vs.push((1i64 << k) + d);
            vs.push(-(1i64 << k) + d);
        }
    }
    vs.extend([i64::MAX, i64::MIN, i64::MIN + 1]);
    let li = BigInt::from_biguint(num_bigint_dig::Sign::Plus, l.clone());
    for v in vs {
        let want = crate::p_int::emod(&BigInt::from(v), &li).to_bytes_le().1;
        let mut w = want.clone();
        w.resize(32, 0);
        for j in junks {
            ctx.eval();
            let r = enc(&j.set_int64(v));
            ctx.check(r == w, &format!("{}-set-int64", T::name()), &format!("got {}", hex::encode(&r)), || json!({"v": v, "receiver": hex::encode(enc(j)), "type": T::name()}));
        }
    }
    // byte strings of every length
    for j in junks {
        for len in 0..=80usize {
            for fill in [0u8, 1, 0x80, 0xff, 0xa5] {
                let mut forms = vec![vec![fill; len]];
                if len > 0 {
                    let mut lo = vec![0u8; len];
                    lo[0] = fill;
                    forms.push(lo);
                    let mut hi = vec![0u8; len];
                    hi[len - 1] = fill;
                    forms.push(hi);
                }
                for b in forms {
                    ctx.eval();
                    let want = modl(from32(&b), l);
                    let Some(r) = ctx.nopanic(&format!("{}-set-bytes", T::name()), || json!({"bytes": hex::encode(&b)}), || j.set_bytes(&b)) else { continue };
                    ctx.check(enc(&r) == want, &format!("{}-set-bytes", T::name()), "reduction of a byte string is wrong", || {
                        json!({"bytes": hex::encode(&b), "receiver": hex::encode(enc(j)), "type": T::name()})
                    });
                }
            }
        }
    }
}

fn explore<T: Sc>(ctx: &Ctx) {
    let l = order();
    let dense = alphabet(true);
    let small = alphabet(false);
    let hot = one_hot();
    let pats = limb_patterns();
    let junk = mk::<T>(&[0xd7; 32]);
    let junks = [T::default(), junk, mk::<T>(&[0xff; 32])];
    ints(ctx, &l, &junks);
    par_items(&dense, |a| unop(ctx, a, &l, &junk));
    par_items(&pats, |a| {
        if ctx.thorough() || (a[0] ^ a[13] ^ a[26]) & 1 == 0 {
            unop(ctx, a, &l, &junk)
        }
    });
    let a_list: &[B32] = &dense;
    let b_list: &[B32] = if ctx.thorough() { &dense } else { &small };
    par_items(a_list, |a| {
        for b in b_list {
            binop(ctx, a, b, &l, &junk);
        }
    });
    par_items(&hot, |a| {
        for b in &hot {
            binop(ctx, a, b, &l, &junk);
        }
    });
    par_items(&pats, |a| {
        for b in &hot {
            if ctx.thorough() || b[0] != 0 || b[31] != 0 || b[15] != 0 {
                binop(ctx, a, b, &l, &junk);
            }
        }
        binop(ctx, a, a, &l, &junk);
        binop(ctx, &[0xff; 32], a, &l, &junk);
        if ctx.thorough() {
            for b in &pats {
                binop(ctx, a, b, &l, &junk);
            }
        }
    });
    ctx.nontriv_add((a_list.len() * b_list.len()) as u64);
    ctx.sample("pair", || json!({"type": T::name(), "a": hex::encode(dense[5]), "b": hex::encode(dense[dense.len() - 1])}));
    ctx.bound(format!("{}: {} x {} boundary pairs, {}^2 one-hot-limb pairs, 4096 {{0,max}}-limb patterns x {} others, set_int64 over +-2^k+-1 and [-300,300], set_bytes for lengths 0..=80", T::name(), a_list.len(), b_list.len(), hot.len(), hot.len() + if ctx.thorough() { 4096 } else { 0 }));
}

pub fn c05(ctx: &Ctx) -> i32 {
    explore::<EdScalar>(ctx);
    // the exported multiply-add primitive
    let l = order();
    let sm = alphabet(false);
    let hot = one_hot();
    let third: Vec<B32> = ctx.pick(
        vec![[0; 32], [0xff; 32], to32(&(order() - 1u32)), hot[7], hot[40]],
        {
            let mut v = hot.clone();
            v.extend([[0u8; 32], [0xff; 32], to32(&(order() - 1u32))]);
            v
        },
    );
    par_items(&sm, |a| {
        for b in &sm {
            for c in &third {
                ctx.eval();
                let mut s = [0u8; 32];
                scalar::sc_mul_add(&mut s, a, b, c);
                let want = to32(&((from32(a) * from32(b) + from32(c)) % &l));
                ctx.check(s == want, "sc_mul_add", "ab+c differs from integer arithmetic", || json!({"a": hex::encode(a), "b": hex::encode(b), "c": hex::encode(c)}));
            }
        }
    });
    // algebraic laws and division on the boundary alphabet
    par_items(&sm, |a| {
        for b in &sm {
            ctx.eval();
            if (from32(b) % &l).is_zero() {
                continue;
            }
            let (x, y) = (mk::<EdScalar>(a), mk::<EdScalar>(b));
            let q = EdScalar::default().div(&x, &y);
            let want = from32(a) % &l;
            ctx.check(from32(&enc(&(q * y))) == want && (from32(&enc(&q)) * from32(b)) % &l == want, "div", "(a/b)*b != a", || json!({"a": hex::encode(a), "b": hex::encode(b)}));
        }
    });
    0
}

pub fn c30(ctx: &Ctx) -> i32 {
    explore::<SimpleCTScalar>(ctx);
    explore::<FactoredScalar>(ctx);
    // encodings are interchangeable and reduced operands print/encode identically
    let l = order();
    let al = alphabet(true);
    fn one<T: Sc>(ctx: &Ctx, a: &B32, l: &BigUint) {
        let p = mk::<EdScalar>(a);
        let t = mk::<T>(a);
        let case = || json!({"type": T::name(), "a": hex::encode(a)});
        let k = format!("{}-encoding", T::name());
        ctx.eval();
        let (ep, et) = (p.marshal_binary(), t.marshal_binary());
        let (Ok(ep), Ok(et)) = (ep, et) else {
            ctx.fail(&k, "marshal failed", case());
            return;
        };
        if &from32(a) < l {
            ctx.nontriv();
            ctx.check(ep == et && ep == a, &k, "encodings differ", case);
        }
        ctx.check(p.marshal_size() == t.marshal_size() && t.marshal_size() == et.len(), &k, "encoded size differs", case);
        let mut w1 = vec![];
        let mut w2 = vec![];
        ctx.check(p.marshal_to(&mut w1).is_ok() && t.marshal_to(&mut w2).is_ok(), &k, "marshal_to failed", case);
        ctx.check(w1 == w2, &k, "stream encodings differ", case);
        let mut back = T::default();
        ctx.check(back.unmarshal_binary(&ep).is_ok(), &k, "does not decode the primary encoding", case);
        let mut r = &w1[..];
        let mut back2 = T::default();
        ctx.check(back2.unmarshal_from(&mut r).is_ok() && back2 == back, &k, "stream decoding differs", case);
        ctx.check(T::default().zero() + back == T::default().zero() + t, &k, "decoded value differs", case);
        ctx.check(p.marshal_id() == t.marshal_id(), &k, "type tag differs", case);
    }
    par_items(&al, |a| {
        one::<SimpleCTScalar>(ctx, a, &l);
        one::<FactoredScalar>(ctx, a, &l);
    });
    for n in [0usize, 1, 31, 33, 64] {
        let b = vec![1u8; n];
        ctx.check(EdScalar::default().unmarshal_binary(&b).is_err(), "length", "wrong length accepted", || json!(n));
        for (nm, r) in [
            ("SimpleCTScalar", SimpleCTScalar::default().unmarshal_binary(&b).is_err()),
            ("FactoredScalar", FactoredScalar::default().unmarshal_binary(&b).is_err()),
        ] {
            ctx.eval();
            ctx.check(r, &format!("{nm}-length"), "wrong length accepted", || json!(n));
        }
    }
    // picking from the same stream yields the same value
    for s in 0..64u8 {
        ctx.eval();
        let suite = kyber_rs::group::edwards25519::SuiteEd25519::new_blake3_sha256_ed25519();
        use kyber_rs::XOFFactory;
        let mut x = suite.xof(Some(&[s]));
        let mut y = suite.xof(Some(&[s]));
        let mut z = suite.xof(Some(&[s]));
        let p = EdScalar::default().pick(&mut x);
        let a = SimpleCTScalar::default().pick(&mut y);
        let b = FactoredScalar::default().pick(&mut z);
        ctx.check(enc(&p) == enc(&a) && enc(&p) == enc(&b), "pick", "picked values differ", || json!(s));
    }
    0
}
