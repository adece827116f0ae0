//! C28: renewing a distributed key share.
use crate::engine::*;
use crate::p_vss::{conv, MShare};
use crate::p_dkg::MKey;
use crate::toy::*;
use kyber_rs::group::edwards25519::{Point as EdPoint, Scalar as EdScalar, SuiteEd25519};
use kyber_rs::share::dkg::pedersen::structs as ps;
use kyber_rs::share::poly;
use kyber_rs::{Group, Point, Scalar};
use serde_json::json;

type K<S, P> = MKey<S, P>;

macro_rules! renew_check {
    ($f:ident, $suite:ty, $mk:expr, $sc:ty, $pt:ty, $name:expr) => {
        fn $f(ctx: &Ctx, tmax: usize, coef: &[i64], n: usize, chain: bool) {
            let suite = $mk;
            let sc = |v: i64| suite.scalar().set_int64(v);
            let pt = |v: i64| suite.point().mul(&sc(v), None);
            // integer polynomials; values are taken modulo the order by the scalars
            let eval = |c: &[i64], x: i64| -> $sc { c.iter().rev().fold(sc(0), |a, k| a * sc(x) + sc(*k)) };
            let key = |c: &[i64], i: usize| -> K<$sc, $pt> { K { commits: c.iter().map(|k| pt(*k)).collect(), share: MShare { i, v: eval(c, i as i64 + 1) }, private_poly: vec![] } };
            let renew = |a: &K<$sc, $pt>, b: &K<$sc, $pt>| -> Result<Result<K<$sc, $pt>, String>, String> {
                let (x, y): (ps::DistKeyShare<$suite>, ps::DistKeyShare<$suite>) = (conv(a), conv(b));
                guard(|| x.renew($mk, y).map(|k| conv(&k)).map_err(|e| format!("{e:?}")))
            };
            let polys = |t: usize| -> Vec<Vec<i64>> { tuples(coef.len(), t).into_iter().map(|v| v.into_iter().map(|k| coef[k]).collect()).collect() };
            let q0 = |c: &[i64]| c.first().map_or(false, |k| sc(*k) == sc(0));
            let mut items = vec![];
            for t in 1..=tmax {
                for f in polys(t) {
                    items.push(f);
                }
            }
            par_items(&items, |f| {
                let t = f.len();
                for tg in 0..=tmax + 1 {
                    // other lengths are refused whatever they hold: a few polynomials suffice there
                    let gs: Vec<Vec<i64>> = if tg == t { polys(t) } else { vec![vec![0; tg], (0..tg as i64).collect(), vec![1; tg]] };
                    for g in gs {
                        let good = tg == t && t > 0 && q0(&g);
                        let mut shares: Vec<MShare<$sc>> = vec![];
                        for i in 0..n {
                            for j in 0..n {
                                if i != j && (i + j) % 3 != 1 && t > 2 {
                                    continue;
                                }
                                ctx.eval();
                                let case = || json!({"suite": $name, "f": f, "g": g, "index of f": i, "index of g": j});
                                let (a, b) = (key(f, i), key(&g, j));
                                match renew(&a, &b) {
                                    Err(p) => ctx.fail("panic", format!("renew panicked: {p}"), case()),
                                    Ok(Err(e)) => {
                                        ctx.check(!(good && i == j), "renewal-refused", "renewal with a share of zero must succeed", || { let mut c = case(); c["error"] = json!(e); c });
                                        ctx.outcome("refused");
                                    }
                                    Ok(Ok(k)) => {
                                        let why = if i != j { "other-participant" } else if tg != t { "other-degree" } else { "non-zero-secret" };
                                        ctx.check(good && i == j, &format!("accepted-{why}"), "this renewal must be refused", || case());
                                        if !(good && i == j) {
                                            continue;
                                        }
                                        ctx.nontriv();
                                        let sum: Vec<i64> = f.iter().zip(&g).map(|(a, b)| a + b).collect();
                                        let want = key(&sum, i);
                                        ctx.check(k.share == want.share, "renewed-share", "the renewed share must be the sum of the shares", || case());
                                        ctx.check(k.commits == want.commits, "renewed-polynomial", "the renewed polynomial must be the sum of the polynomials", || case());
                                        ctx.check(k.commits.first() == a.commits.first(), "public-key-changed", "the public key must stay", || case());
                                        let pp = poly::PubPoly::new(&suite, None, &k.commits);
                                        ctx.check(pp.check(&poly::PriShare { i: k.share.i, v: k.share.v.clone() }), "renewed-mismatch", "the renewed polynomial must match the renewed share", || case());
                                        // a second renewal of the renewed share
                                        if chain {
                                            let mut c2 = vec![0i64; t];
                                            for (z, x) in c2.iter_mut().enumerate().skip(1) {
                                                *x = 2 + z as i64;
                                            }
                                            let want = key(&sum.iter().zip(&c2).map(|(a, b)| a + b).collect::<Vec<_>>(), i);
                                            let r = renew(&k, &key(&c2, i));
                                            ctx.check(matches!(&r, Ok(Ok(x)) if x.share == want.share && x.commits == want.commits), "second-renewal", "a renewed share can be renewed again", || case());
                                        }
                                        shares.push(k.share.clone());
                                    }
                                }
                            }
                        }
                        if good && shares.len() == n && n >= t {
                            for sub in subsets(n, t) {
                                let s: Vec<Option<poly::PriShare<$sc>>> = sub.iter().map(|k| Some(poly::PriShare { i: shares[*k].i, v: shares[*k].v.clone() })).collect();
                                let r = guard(|| poly::recover_secret(suite, &s, t, n));
                                ctx.check(matches!(&r, Ok(Ok(x)) if *x == sc(f[0])), "secret-changed", "any t renewed shares must give the same secret", || json!({"suite": $name, "f": f, "g": g, "holders": sub}));
                            }
                        }
                    }
                }
            });
        }
    };
}
renew_check!(toy5, Toy<5>, Toy::<5>, TS<5>, TP<5>, "toy Z_5");
renew_check!(toy7, Toy<7>, Toy::<7>, TS<7>, TP<7>, "toy Z_7");
renew_check!(ed, SuiteEd25519, SuiteEd25519::new_blake3_sha256_ed25519(), EdScalar, EdPoint, "ed25519");

/// Long polynomials: every pair of lengths up to tmax, each with one coefficient set or all of them.
fn long(ctx: &Ctx, tmax: usize) {
    let g = Toy::<M61>;
    let key = |c: &[u64], i: usize| -> K<TS<M61>, TP<M61>> {
        let v = c.iter().rev().fold(TS(0), |a, k| a * TS(i as u64 + 1) + TS(*k));
        K { commits: c.iter().map(|k| g.point().mul(&TS(*k), None)).collect(), share: MShare { i, v }, private_poly: vec![] }
    };
    let renew = |a: &K<TS<M61>, TP<M61>>, b: &K<TS<M61>, TP<M61>>| -> Result<Result<K<TS<M61>, TP<M61>>, String>, String> {
        let (x, y): (ps::DistKeyShare<Toy<M61>>, ps::DistKeyShare<Toy<M61>>) = (conv(a), conv(b));
        guard(|| x.renew(g, y).map(|k| conv(&k)).map_err(|e| format!("{e:?}")))
    };
    let ts: Vec<usize> = (1..=tmax).collect();
    par_items(&ts, |&t| {
        let f: Vec<u64> = (0..t as u64).map(|k| (k + 7) * 0x0123_4567_89ab_cde % M61).collect();
        for tg in 1..=tmax {
            let dense: Vec<u64> = (0..tg as u64).map(|k| if k == 0 { 0 } else { (k + 3) * 0x0654_3210_fedc_ba9 % M61 }).collect();
            // zero secret: all coefficients, none, and each one alone; non-zero secret: alone and with the rest
            let mut gs = vec![dense.clone(), vec![0; tg]];
            if tg == t {
                for k in 1..tg {
                    let mut x = vec![0; tg];
                    x[k] = 5;
                    gs.push(x);
                    let mut x = dense.clone();
                    x[k] = 0;
                    gs.push(x);
                    // the secret hidden behind cancelling coefficients
                    let mut x = vec![0; tg];
                    x[0] = 1;
                    x[k] = M61 - 1;
                    gs.push(x);
                }
                let mut x = dense.clone();
                x[0] = 1;
                gs.push(x);
            }
            for q in gs {
                for (i, j) in [(0, 0), (1, 1), (t, t), (300, 300), (70000, 70000), (0, 1), (3, 2), (1, 257), (5, 5 + (1 << 16)), (0, 1 << 32)] {
                    ctx.eval();
                    let case = || json!({"suite": "toy Z_(2^61-1)", "f": f, "g": q, "index of f": i, "index of g": j});
                    let (a, b) = (key(&f, i), key(&q, j));
                    let good = i == j && t == tg && q[0] == 0;
                    match renew(&a, &b) {
                        Err(p) => ctx.fail("panic", format!("renew panicked: {p}"), case()),
                        Ok(Err(e)) => {
                            ctx.check(!good, "renewal-refused", "renewal with a share of zero must succeed", || { let mut c = case(); c["error"] = json!(e); c });
                        }
                        Ok(Ok(k)) => {
                            let why = if i != j { "other-participant" } else if t != tg { "other-degree" } else { "non-zero-secret" };
                            if !ctx.check(good, &format!("accepted-{why}"), "this renewal must be refused", case) {
                                continue;
                            }
                            ctx.nontriv();
                            let sum: Vec<u64> = f.iter().zip(&q).map(|(a, b)| (a + b) % M61).collect();
                            let want = key(&sum, i);
                            ctx.check(k.share == want.share, "renewed-share", "the renewed share must be the sum of the shares", case);
                            ctx.check(k.commits == want.commits, "renewed-polynomial", "the renewed polynomial must be the sum of the polynomials", case);
                        }
                    }
                }
            }
        }
    });
    ctx.bound(format!("Z_(2^61-1): every pair of lengths up to {tmax}, every single coefficient of the renewal alone, missing, or hiding a non-zero secret, indices around 2^8, 2^16, 2^32"));
}

pub fn c28(ctx: &Ctx) -> i32 {
    long(ctx, ctx.pick(24, 70));
    toy5(ctx, ctx.pick(3, 4), &[0, 1, 2, 3, 4], 4, true);
    toy7(ctx, 3, &[0, 1, 2, 3, 4, 5, 6], ctx.pick(4, 6), true);
    ed(ctx, 3, &[0, 1, -1, 61], 4, true);
    ctx.bound("all pairs of polynomials with up to 3 coefficients over Z_5 (thorough 4; Z_7: 3; Ed25519: coefficients 0, 1, -1, 61, up to 3), every pair of indices below n, every length of the second polynomial from 0 to one more than the longest");
    0
}
