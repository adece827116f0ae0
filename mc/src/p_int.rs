//! C09: modular integers (`Int`) — every modulus up to a bound, every operand pair, every short byte
//! string, plus multi-limb boundary moduli against independent big-integer arithmetic.
use crate::engine::*;
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler, Marshaling};
use kyber_rs::group::integer_field::integer::{ByteOrder, Int};
use kyber_rs::Scalar;
use num_bigint_dig::{BigInt, Sign};
use num_traits::{One, Zero};
use serde_json::json;

fn bi(v: i128) -> BigInt {
    BigInt::from(v)
}
pub fn emod(a: &BigInt, m: &BigInt) -> BigInt {
    let r = a % m;
    if r.sign() == Sign::Minus {
        r + m
    } else {
        r
    }
}
/// observable value of an Int: its big-endian hex rendering
fn val(i: &Int) -> BigInt {
    let s = format!("{i:x}");
    BigInt::from_bytes_be(Sign::Plus, &hex::decode(if s.len() % 2 == 1 { format!("0{s}") } else { s }).unwrap())
}
fn neg_val(i: &Int) -> bool {
    // a negative representation shows up when serialised
    serde_json::to_value(i).map(|v| v["v"][0] == json!(-1)).unwrap_or(false)
}
fn egcd_inv(a: &BigInt, m: &BigInt) -> Option<BigInt> {
    let (mut r0, mut r1) = (m.clone(), emod(a, m));
    let (mut t0, mut t1) = (BigInt::zero(), BigInt::one());
    while !r1.is_zero() {
        let q = &r0 / &r1;
        let r2 = &r0 - &q * &r1;
        r0 = r1;
        r1 = r2;
        let t2 = &t0 - &q * &t1;
        t0 = t1;
        t1 = t2;
    }
    if r0.is_one() {
        Some(emod(&t0, m))
    } else {
        None
    }
}
fn rpow(a: &BigInt, e: u64, m: &BigInt) -> BigInt {
    let mut r = emod(&BigInt::one(), m);
    for i in (0..64).rev() {
        r = &r * &r % m;
        if (e >> i) & 1 == 1 {
            r = &r * a % m;
        }
    }
    r
}

fn expect(ctx: &Ctx, key: &str, got: &Int, want: &BigInt, case: &dyn Fn() -> serde_json::Value) {
    ctx.eval();
    let g = val(got);
    ctx.check(&g == want && !neg_val(got), key, &format!("got {g}, want {want}"), || case());
}

fn pair_ops(ctx: &Ctx, m: &BigInt, a: &BigInt, b: &BigInt, exps: &[u64], prime: bool) {
    let case = || json!({"m": m.to_string(), "a": a.to_string(), "b": b.to_string()});
    let mk = |x: &BigInt| Int::new_int(x.clone(), m.clone());
    let (ia, ib) = (mk(a), mk(b));
    let junk = Int::new_int(m - 1i32, m.clone());
    expect(ctx, "new", &ia, a, &case);
    let g = |key: &'static str, want: BigInt, f: &dyn Fn() -> Int| {
        match guard(f) {
            Ok(r) => expect(ctx, key, &r, &want, &case),
            Err(p) => ctx.fail(key, format!("panic {p}"), case()),
        };
    };
    g("add", emod(&(a + b), m), &|| &ia + &ib);
    g("mul", emod(&(a * b), m), &|| &ia * &ib);
    g("sub", emod(&(a - b), m), &|| junk.clone().sub(&ia, &ib));
    g("neg", emod(&-a.clone(), m), &|| junk.clone().neg(&ia));
    // operations on an uninitialised receiver take the operand's modulus
    g("sub-fresh", emod(&(a - b), m), &|| Int::default().sub(&ia, &ib));
    g("neg-fresh", emod(&-a.clone(), m), &|| Int::default().neg(&ia));
    if let Some(inv) = egcd_inv(b, m) {
        ctx.nontriv();
        g("inv", inv.clone(), &|| junk.clone().inv(&ib));
        g("div", emod(&(a * &inv), m), &|| junk.clone().div(&ia, &ib));
        g("exp-negative", emod(&(&inv * &inv % m * &inv), m), &|| junk.clone().exp(&ib, &bi(-3)));
    }
    for e in exps {
        g("exp", rpow(a, *e, m), &|| junk.clone().exp(&ia, &bi(*e as i128)));
        g("exp-fresh", rpow(a, *e, m), &|| Int::default().exp(&ia, &bi(*e as i128)));
    }
    let eq = a == b;
    ctx.check((ia == ib) == eq && ia.equal(&ib) == eq && ib.equal(&ia) == eq, "eq", "equality verdict wrong", case);
    ctx.check(ia.cmp(&ib) == a.cmp(b) && ia.partial_cmp(&ib) == Some(a.cmp(b)) && ia.cmpr(&ib) == a.cmp(b), "cmp", "order verdict wrong", case);
    ctx.check(ia.nonzero() != a.is_zero(), "nonzero", "nonzero verdict wrong", case);
    g("set", a.clone(), &|| junk.clone().set(&ia));
    g("zero", bi(0), &|| junk.clone().zero());
    g("one", bi(1), &|| junk.clone().one());
    if prime {
        // square root modulo an odd prime
        let mut r = junk.clone();
        let sq = a * a % m;
        let isq = mk(&sq);
        match guard(move || r.sqrt(&isq).map(|_| r)) {
            Ok(Ok(r)) => {
                let v = val(&r);
                ctx.check(emod(&(&v * &v), m) == sq && &v < m, "sqrt", "square root of a square is wrong", case);
            }
            Ok(Err(e)) => ctx.fail("sqrt", format!("square root of a square refused: {e}"), case()),
            Err(p) => ctx.fail("sqrt", format!("panic {p}"), case()),
        }
    }
}

fn encodings(ctx: &Ctx, m: &BigInt, vals: &[BigInt]) {
    let size = (m.bits() + 7) / 8;
    for bo in [ByteOrder::BigEndian, ByteOrder::LittleEndian] {
        for a in vals {
            let case = || json!({"m": m.to_string(), "a": a.to_string(), "order": format!("{bo:?}")});
            let mut ia = Int::new_int(a.clone(), m.clone());
            ia.bo = bo;
            let Some(enc) = ctx.nopanic("marshal", case, || ia.marshal_binary()) else { continue };
            ctx.eval();
            let Ok(enc) = enc else {
                ctx.fail("marshal", "encoding failed", case());
                continue;
            };
            let mut want = a.to_bytes_be().1;
            while want.len() < size {
                want.insert(0, 0);
            }
            if bo == ByteOrder::LittleEndian {
                want.reverse();
            }
            ctx.check(enc == want && ia.marshal_size() == size, "marshal", &format!("encoding {} want {}", hex::encode(&enc), hex::encode(&want)), case);
            let mut w = vec![];
            ctx.check(ia.marshal_to(&mut w).is_ok() && w == want, "marshal-to", "stream encoding differs", case);
            let mut d = Int::new_int(m - 1i32, m.clone());
            d.bo = bo;
            match ctx.nopanic("unmarshal", case, || d.unmarshal_binary(&want)) {
                Some(Ok(())) => expect(ctx, "unmarshal", &d, a, &case),
                Some(Err(e)) => ctx.fail("unmarshal", format!("own encoding refused {e}"), case()),
                None => {}
            }
            let mut d = Int::new_int(m - 1i32, m.clone());
            d.bo = bo;
            let mut rd = &want[..];
            ctx.check(d.unmarshal_from(&mut rd).is_ok() && val(&d) == *a, "unmarshal-from", "stream decoding differs", case);
            // min/max encodings
            for min in 0..(size + 3) {
                for max in 0..(size + 3) {
                    for le in [true, false] {
                        ctx.eval();
                        let c2 = || json!({"m": m.to_string(), "a": a.to_string(), "min": min, "max": max, "le": le});
                        let key = if le { "little-endian" } else { "big-endian" };
                        let Some(r) = ctx.nopanic(key, c2, || if le { ia.little_endian(min, max) } else { ia.big_endian(min, max) }) else { continue };
                        let need = if a.is_zero() { 0 } else { (a.bits() + 7) / 8 };
                        match r {
                            Ok(b) => {
                                let v = if le { BigInt::from_bytes_le(Sign::Plus, &b) } else { BigInt::from_bytes_be(Sign::Plus, &b) };
                                ctx.check(v == *a && b.len() >= min && (max == 0 || b.len() <= max), key, &format!("wrong bytes {}", hex::encode(&b)), c2);
                            }
                            Err(_) => {
                                // refusal is only right when the value (or its fixed width) does not fit
                                ctx.check(max != 0 && max < min.max(size).max(need), key, "refused although it fits", c2);
                            }
                        }
                    }
                }
            }
        }
        // every byte string of the right length is decoded exactly or refused without side effect
        let all: Vec<Vec<u8>> = if size <= 2 {
            let mut v = vec![vec![]];
            for x in 0..256usize {
                v.push(vec![x as u8]);
            }
            for x in 0..65536usize {
                if size == 2 || x % 257 == 0 {
                    v.push(vec![(x >> 8) as u8, x as u8]);
                }
            }
            v.push(vec![0, 0, 0]);
            v
        } else {
            let mut v = vec![];
            for d in -3i128..=3 {
                let x = m + bi(d);
                let mut b = x.to_bytes_be().1;
                while b.len() < size {
                    b.insert(0, 0);
                }
                let mut r = b.clone();
                r.reverse();
                v.push(b);
                v.push(r);
            }
            for l in [0, 1, size - 1, size, size + 1] {
                v.push(vec![0xff; l]);
                v.push(vec![0; l]);
            }
            v
        };
        for b in &all {
            ctx.eval();
            let mut be = b.clone();
            if bo == ByteOrder::LittleEndian {
                be.reverse();
            }
            let v = BigInt::from_bytes_be(Sign::Plus, &be);
            let case = || json!({"m": m.to_string(), "bytes": hex::encode(b), "order": format!("{bo:?}")});
            let before: BigInt = m - 1i32;
            let mut d = Int::new_int(before.clone(), m.clone());
            d.bo = bo;
            let ok = match guard(|| d.unmarshal_binary(b)) {
                Ok(r) => r.is_ok(),
                Err(p) => {
                    ctx.fail("unmarshal-any", format!("panic {p}"), case());
                    continue;
                }
            };
            let should = b.len() == size && v < *m;
            ctx.check(ok == should, "unmarshal-any", &format!("accepted={ok}, should be {should}"), case);
            if should {
                ctx.nontriv();
                ctx.check(val(&d) == v, "unmarshal-any", "decoded to a different value", case);
            } else if !ok {
                ctx.check(val(&d) == before, "unmarshal-mutates", "refused encoding changed the receiver", case);
            }
            // reducing conversion
            for fresh in [true, false] {
                let r = guard(|| {
                    if fresh {
                        Int::new_int_bytes(b, m, bo)
                    } else {
                        let mut j = Int::new_int(m - 1i32, m.clone());
                        j.bo = bo;
                        j.set_bytes(b)
                    }
                });
                match r {
                    Ok(r) => {
                        ctx.check(val(&r) == emod(&v, m), "set-bytes", "byte reduction wrong", case);
                    }
                    Err(p) => ctx.fail("set-bytes", format!("panic {p}"), case()),
                }
            }
        }
    }
}

fn small_ints(ctx: &Ctx, m: &BigInt, vs: &[i64]) {
    for v in vs {
        ctx.eval();
        let want = emod(&bi(*v as i128), m);
        let case = || json!({"m": m.to_string(), "v": v});
        expect(ctx, "init64", &Int::new_int64(*v, m.clone()), &want, &case);
        expect(ctx, "set-int64", &Int::new_int(m - 1i32, m.clone()).set_int64(*v), &want, &case);
        expect(ctx, "new-int", &Int::new_int(bi(*v as i128), m.clone()), &want, &case);
        if *v >= 0 {
            let u = Int::new_int(m - 1i32, m.clone()).set_uint64(*v as u64);
            expect(ctx, "set-uint64", &u, &want, &case);
            if m.bits() <= 62 {
                ctx.check(bi(u.int64() as i128) == want && bi(u.uint64() as i128) == want, "int64", "integer conversion wrong", case);
            }
        }
        // decimal and hexadecimal strings
        if let Some(r) = ctx.nopanic("string", case, || Int::new_int_string(v.to_string(), String::new(), 10, m)) {
            expect(ctx, "string", &r, &want, &case);
        }
        if *v >= 0 {
            if let Some(r) = ctx.nopanic("string", case, || Int::new_int_string(format!("{v:x}"), String::new(), 16, m)) {
                expect(ctx, "string", &r, &want, &case);
            }
        }
    }
}

pub fn c09(ctx: &Ctx) -> i32 {
    let mmax: i64 = ctx.pick(48, 200);
    let moduli: Vec<i64> = (2..=mmax).collect();
    for (m, large) in [(bi(2), false), (bi(7), false), (bi(256), false), (bi(257), false), (bi(1) << 61usize, false), ((bi(1) << 255usize) - bi(19), true), (bi(1) << 256usize, true), ((bi(1) << 521usize) - bi(1), true)] {
        let r: Vec<Int> = vec![Int::new_int(bi(1), m.clone()), Int::new_int(bi(0), m.clone()), Int::new_int(m.clone() - bi(1), m.clone())];
        crate::p_point::random_form(ctx, "int", large, &r, &|i: Int, x| i.pick(x));
    }
    par_items(&moduli, |&m| {
        let bm = bi(m as i128);
        let prime = m > 2 && (2..m).all(|d| m % d != 0);
        let exps: Vec<u64> = if m <= 16 { (0..2 * m as u64 + 2).collect() } else { vec![0, 1, 2, 3, m as u64 - 2, m as u64 - 1, m as u64, u64::MAX] };
        for a in 0..m {
            for b in 0..m {
                pair_ops(ctx, &bm, &bi(a as i128), &bi(b as i128), if b == 0 { &exps } else { &exps[..1] }, prime && b == 0);
                // rational strings
                if let Some(inv) = egcd_inv(&bi(b as i128), &bm) {
                    let want = emod(&(bi(a as i128) * inv), &bm);
                    let case = || json!({"m": m, "n": a, "d": b});
                    if let Some(r) = ctx.nopanic("fraction", case, || Int::new_int_string(a.to_string(), b.to_string(), 10, &bm)) {
                        expect(ctx, "fraction", &r, &want, &case);
                    }
                }
            }
        }
        let vals: Vec<BigInt> = (0..m).map(|x| bi(x as i128)).collect();
        if m <= ctx.pick(20, 200) || m > mmax - 2 {
            encodings(ctx, &bm, &vals);
        }
        let mut vs: Vec<i64> = (-3 * m..=3 * m).collect();
        vs.extend([i64::MIN, i64::MIN + 1, i64::MAX, -m * 1000, m * 1000, -(1 << 40), 1 << 40]);
        small_ints(ctx, &bm, &vs);
        if prime {
            let squares: Vec<i64> = (0..m).map(|x| x * x % m).collect();
            for a in 0..m {
                let ia = Int::new_int(bi(a as i128), bm.clone());
                let mut r = ia.clone();
                let case = || json!({"m": m, "a": a});
                if !squares.contains(&a) {
                    if let Some(x) = ctx.nopanic("sqrt-nonsquare", case, || r.sqrt(&ia).is_err()) {
                        ctx.check(x, "sqrt-nonsquare", "square root of a non-square was returned", case);
                    }
                }
                let j = ia.jacobi(&ia).int64();
                let want = if a == 0 { 0 } else if squares.contains(&a) { 1 } else { -1 };
                ctx.check(j == want, "jacobi", "Jacobi symbol wrong", case);
            }
        }
    });
    // two- and three-byte moduli: encodings
    for m in [255i64, 256, 257, 65521, 65535, 65536, 65537] {
        let bm = bi(m as i128);
        let vals: Vec<BigInt> = [0, 1, 2, 127, 128, 250, m / 2, m - 2, m - 1].iter().map(|x| bi(*x as i128)).collect();
        encodings(ctx, &bm, &vals);
        small_ints(ctx, &bm, &[-m, -2 * m, m, 2 * m, -1, 0, 1, i64::MIN, i64::MAX]);
    }
    // multi-limb moduli and boundary operands
    let p255: BigInt = (BigInt::one() << 255) - 19;
    let l: BigInt = (BigInt::one() << 252) + "27742317777372353535851937790883648493".parse::<BigInt>().unwrap();
    let mut bigs: Vec<(BigInt, bool)> = vec![(p255.clone(), true), (l.clone(), true)];
    for k in [31usize, 32, 63, 64, 65, 96, 127, 128, 129, 192, 256] {
        let b = BigInt::one() << k;
        bigs.push((&b - 1, matches!(k, 31 | 127)));
        bigs.push((&b + 1, false));
        bigs.push((b, false));
    }
    par_items(&bigs, |(m, prime)| {
        let mut al: Vec<BigInt> = vec![];
        for d in 0..3i128 {
            al.push(bi(d));
            al.push(m - bi(d + 1));
            al.push(m / 2 + bi(d));
        }
        for k in [7usize, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 250] {
            for d in [-1i128, 0, 1] {
                al.push((BigInt::one() << k) + bi(d));
            }
        }
        al.retain(|x| x < m);
        al.sort();
        al.dedup();
        for a in &al {
            for b in &al {
                pair_ops(ctx, m, a, b, if b == &al[1] { &[0, 1, 2, 3, 65537, u64::MAX] } else { &[] }, *prime && b == &al[1]);
            }
        }
        encodings(ctx, m, &al);
        small_ints(ctx, m, &[0, 1, -1, i64::MAX, i64::MIN, 255, -256]);
    });
    ctx.sample("modulus", || json!({"m": 7, "pairs": 49, "ops": ["add","sub","mul","neg","inv","div","exp","cmp","encode","decode"]}));
    ctx.bound(format!("moduli 2..={mmax}: all operand pairs, all byte strings of length <=2 (plus wrong lengths); {} multi-limb moduli x boundary operands", bigs.len()));
    0
}
