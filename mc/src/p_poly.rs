//! C01..C04: Shamir sharing, secrecy, commitments, polynomial algebra — exhaustive over Z_q,
//! replayed on Ed25519 with boundary scalars.
use crate::engine::*;
use crate::toy::*;
use kyber_rs::group::edwards25519::SuiteEd25519;
use kyber_rs::share::poly::*;
use kyber_rs::{Group, Point, Scalar};
use serde_json::json;
use std::collections::BTreeMap;

pub type Sc<G> = <<G as Group>::POINT as Point>::SCALAR;

fn ref_eval<G: Group>(g: &G, c: &[Sc<G>], i: usize) -> Sc<G> {
    // naive sum of c_j * x^j, x = i+1
    let x = g.scalar().set_int64(i as i64 + 1);
    let mut p = g.scalar().one();
    let mut acc = g.scalar().zero();
    for cj in c {
        acc = acc + cj.clone() * p.clone();
        p = p * x.clone();
    }
    acc
}
fn mulpt<G: Group>(g: &G, s: &Sc<G>, b: Option<&G::POINT>) -> G::POINT {
    g.point().mul(s, b)
}

fn toy_polys<const Q: u64>(t: usize) -> Vec<Vec<TS<Q>>> {
    tuples(Q as usize, t)
        .into_iter()
        .map(|v| v.into_iter().map(|x| TS(x as u64)).collect())
        .collect()
}
fn ed_polys(t: usize, vals: usize) -> Vec<Vec<kyber_rs::group::edwards25519::Scalar>> {
    let g = SuiteEd25519::new_blake3_sha256_ed25519();
    let base = [
        g.scalar().zero(),
        g.scalar().neg(&g.scalar().one()),
        g.scalar().set_bytes(&[0xa7; 64]),
        g.scalar().one(),
        g.scalar().set_int64(i64::MAX),
    ];
    tuples(vals, t)
        .into_iter()
        .map(|v| v.into_iter().map(|x| base[x]).collect())
        .collect()
}

/// Shares lists to try for one polynomial: every subset of `idxs`, every order (bounded), plus
/// None-padding and duplicated entries.
fn share_lists(idxs: &[usize], full_perm_upto: usize, t: usize) -> Vec<Vec<Option<usize>>> {
    let n = idxs.len();
    let mut out = vec![];
    if full_perm_upto == 0 {
        // sparse: every subset of t (ascending, descending, rotated, with a repetition), t-1 and n members
        for k in [t, t - 1, n] {
            let subs = if n <= 12 { subsets(n, k) } else { (0..n).map(|d| (d..d + k).map(|x| x % n).collect()).collect() };
            for sub in subs {
                let up: Vec<Option<usize>> = sub.iter().map(|x| Some(idxs[*x])).collect();
                let mut down = up.clone();
                down.reverse();
                let mut rot = up.clone();
                rot.rotate_left(k / 2);
                if let Some(f) = rot.first().cloned() {
                    rot.insert(1, f);
                    rot.insert(0, None);
                }
                out.extend([up, down, rot]);
            }
        }
        return out;
    }
    for k in 0..=n {
        for sub in subsets(n, k) {
            let ps = if k <= full_perm_upto {
                perms(k)
            } else {
                vec![(0..k).collect(), (0..k).rev().collect()]
            };
            for p in ps {
                let l: Vec<Option<usize>> = p.iter().map(|x| Some(idxs[sub[*x]])).collect();
                out.push(l);
            }
            // positional list with holes, and every single duplicated member
            let holes: Vec<Option<usize>> = (0..n)
                .map(|i| if sub.contains(&i) { Some(idxs[i]) } else { None })
                .collect();
            out.push(holes.clone());
            for d in &sub {
                let mut l = holes.clone();
                l.insert(0, Some(idxs[*d]));
                out.push(l.clone());
                let mut l2 = holes.clone();
                l2.push(Some(idxs[*d]));
                out.push(l2);
            }
        }
    }
    out
}

/// (threshold, indices, list mode): indices around every integer width, and many participants
fn scales(ctx: &Ctx) -> Vec<(usize, Vec<usize>, usize)> {
    let wide: Vec<usize> = vec![0, 127, 254, 255, 256, 65534, 65535, 65536, (1 << 31) - 2, (1 << 31) - 1, 1 << 31, (1 << 32) - 2, (1 << 32) - 1, 1 << 32, (1 << 48) + 5, (1 << 60) - 1];
    let mut v = vec![(2, wide[..9].to_vec(), 0), (2, wide[8..].to_vec(), 0), (3, wide[2..10].to_vec(), 0), (3, wide[8..16].to_vec(), 0)];
    for t in (4..=ctx.pick(12, 24)).chain(ctx.pick(vec![15, 16, 17, 18, 20], vec![28, 31, 32, 33, 34, 40])) {
        v.push((t, (0..t + if t <= 8 { 2 } else { 5 }).collect(), 0));
    }
    ctx.extra("scales", json!(v.iter().map(|x| json!({"t": x.0, "indices": x.1})).collect::<Vec<_>>()));
    v
}

fn c01_group<G: Group + Sync>(ctx: &Ctx, g: &G, t: usize, polys: &[Vec<Sc<G>>], idxs: &[usize], fullp: usize)
where
    Sc<G>: Sync,
{
    let lists = share_lists(idxs, fullp, t);
    let gname = g.to_string();
    par_items(polys, |c| {
        let p = coefficients_to_pri_poly(g, c);
        for l in &lists {
            ctx.eval();
            let mut distinct: Vec<usize> = l.iter().flatten().copied().collect();
            distinct.sort();
            distinct.dedup();
            let shares: Vec<Option<PriShare<Sc<G>>>> = l.iter().map(|x| x.map(|i| p.eval(i))).collect();
            let case = || json!({"group": gname, "coeffs": format!("{c:?}"), "t": t, "share_indices": l});
            for s in shares.iter().flatten() {
                ctx.check(s.v == ref_eval(g, c, s.i), "eval-wrong", "PriPoly::eval differs from the polynomial's value", case);
            }
            let n = (idxs.iter().max().unwrap() + 1).min(1 << 16);
            let r = match ctx.nopanic("recover-panic", case, || recover_secret(g.clone(), &shares, t, n)) {
                Some(r) => r,
                None => continue,
            };
            if distinct.len() >= t {
                ctx.nontriv();
                match r {
                    Ok(s) => {
                        ctx.check(s == c[0], "recover-wrong", "t or more genuine shares reconstruct a different secret", case);
                    }
                    Err(e) => ctx.fail("recover-err", format!("t genuine shares but error {e}"), case()),
                }
            } else if let Ok(s) = r {
                ctx.fail("recover-below-t", format!("fewer than t distinct shares yielded {s}"), case());
            }
            ctx.sample("recover", case);
        }
    });
}

/// the order in which a fixed multiset of shares (possibly one corrupted) is listed never matters
fn c01_order<const Q: u64>(ctx: &Ctx, n: usize, t: usize) {
    let g = Toy::<Q>;
    let polys = toy_polys::<Q>(t);
    let pp = perms(n);
    par_items(&polys, |c| {
        let p = coefficients_to_pri_poly(&g, c);
        for bad in 0..n {
            for delta in 1..Q {
                let mut res: BTreeMap<String, usize> = BTreeMap::new();
                for perm in &pp {
                    ctx.eval();
                    let shares: Vec<_> = perm
                        .iter()
                        .map(|i| {
                            let mut s = p.eval(*i);
                            if *i == bad {
                                s.v = s.v + TS(delta);
                            }
                            Some(s)
                        })
                        .collect();
                    let r = guard(|| recover_secret(g, &shares, t, n).map(|s| s.0).ok());
                    *res.entry(format!("{r:?}")).or_insert(0) += 1;
                }
                ctx.nontriv();
                ctx.check(res.len() == 1, "order-dependent", "result depends on the order shares are listed in", || {
                    json!({"coeffs": format!("{c:?}"), "t": t, "n": n, "corrupted": bad, "delta": delta, "results": format!("{res:?}")})
                });
            }
        }
    });
}

pub fn c01(ctx: &Ctx) -> i32v {
    let th = ctx.thorough();
    for t in 1..=3 {
        c01_group(ctx, &Toy::<7>, t, &toy_polys::<7>(t), &[0, 1, 2, 3], 4);
        if t <= 2 || th {
            c01_group(ctx, &Toy::<7>, t, &toy_polys::<7>(t), &[0, 1, 2, 3, 4, 5], if th { 5 } else { 3 });
        }
        c01_order::<5>(ctx, 4, t);
    }
    c01_group(ctx, &Toy::<5>, 4, &toy_polys::<5>(4), &[0, 1, 2, 3], 4);
    // indices that are not contiguous, and large
    c01_group(ctx, &Toy::<M61>, 3, &[vec![TS(5), TS(7), TS(M61 - 1)], vec![TS(0), TS(0), TS(1)]], &[3, 17, 255, 256, 65535, 1 << 32], 3);
    if th {
        c01_group(ctx, &Toy::<11>, 3, &toy_polys::<11>(3), &[0, 2, 5, 7, 9], 3);
        c01_group(ctx, &Toy::<7>, 4, &toy_polys::<7>(4), &[0, 1, 2, 3, 5], 3);
        c01_group(ctx, &Toy::<7>, 5, &toy_polys::<7>(5).into_iter().step_by(7).collect::<Vec<_>>(), &[0, 1, 2, 3, 4], 2);
        c01_order::<7>(ctx, 4, 3);
        c01_order::<7>(ctx, 5, 2);
    }
    let e = SuiteEd25519::new_blake3_sha256_ed25519();
    for t in 1..=3 {
        c01_group(ctx, &e, t, &ed_polys(t, ctx.pick(3, 5)), &[0, 1, 2, 3], ctx.pick(1, 4));
    }
    for (t, idxs, fullp) in scales(ctx) {
        let m: Vec<TS<M61>> = (0..t as u64).map(|k| TS((k + 3) * 0x1234_5678_9abc_def % M61)).collect();
        c01_group(ctx, &Toy::<M61>, t, &[m], &idxs, fullp);
        let ed: Vec<_> = (0..t).map(|k| e.scalar().set_bytes(&[k as u8 * 29 + 3; 64])).collect();
        c01_group(ctx, &e, t, &[ed], &idxs, fullp);
    }
    ctx.bound("toy Z_7: all polynomials t<=3 over indices 0..3, all subsets/orders/duplicates/holes; t<=2 over 0..5; Z_5 t=4; Ed25519 boundary coefficients t<=3");
    0
}

#[allow(non_camel_case_types)]
pub type i32v = i32;

/// Perfect secrecy: enumerate every answer of the random source.
fn c02_for<const Q: u64>(ctx: &Ctx, t: usize) {
    let g = Toy::<Q>;
    let all = tuples(Q as usize, t - 1);
    let idx: Vec<usize> = (0..(Q as usize - 1)).collect();
    for sub in subsets(idx.len(), t - 1) {
        let mut views: Vec<BTreeMap<Vec<u64>, u64>> = vec![];
        for s in 0..Q {
            let mut m = BTreeMap::new();
            for r in &all {
                ctx.eval();
                ctx.tr(1);
                script_rng(r.iter().map(|x| *x as u64).collect());
                let p = new_pri_poly(g, t, Some(TS(s)), ToyStream);
                let case = || json!({"q": Q, "t": t, "secret": s, "rng": r});
                ctx.check(p.secret() == TS(s), "secret-changed", "secret() is not the shared secret", case);
                ctx.check(p.threshold() == t, "threshold", "threshold() is not t", case);
                ctx.check(p.coefficients().len() == t, "coeffs", "coefficients().len() != t", case);
                let shares = p.shares(Q as usize - 1);
                ctx.check(shares.len() == Q as usize - 1, "nshares", "shares(n) did not return n shares", case);
                let v: Vec<u64> = sub.iter().map(|i| shares[*i].as_ref().unwrap().v.0).collect();
                for (i, sh) in shares.iter().enumerate() {
                    ctx.check(sh.as_ref().map(|s| s.i) == Some(i), "share-index", "share carries the wrong index", case);
                }
                *m.entry(v).or_insert(0u64) += 1;
            }
            views.push(m);
        }
        ctx.st(views.iter().map(|v| v.len() as u64).sum());
        ctx.nontriv();
        let ok = views.iter().all(|v| v == &views[0]);
        ctx.check(ok, "not-perfectly-hiding", "the distribution of t-1 shares depends on the secret", || {
            json!({"q": Q, "t": t, "observer": sub, "view_sizes": views.iter().map(|v| v.len()).collect::<Vec<_>>()})
        });
        ctx.sample("observer", || json!({"q": Q, "t": t, "observed_indices": sub, "distinct_views": views[0].len()}));
    }
    // secret not supplied: uniform over the random source's answers
    let mut cnt = vec![0u64; Q as usize];
    for r in tuples(Q as usize, t) {
        ctx.eval();
        script_rng(r.iter().map(|x| *x as u64).collect());
        let p = new_pri_poly(g, t, None, ToyStream);
        ctx.check(p.coefficients().len() == t, "coeffs-none", "fresh polynomial has wrong length", || json!({"t": t}));
        cnt[p.secret().0 as usize] += 1;
    }
    ctx.check(cnt.iter().all(|c| *c == cnt[0]), "secret-not-uniform", "a fresh secret is not uniform over the random source", || {
        json!({"q": Q, "t": t, "counts": cnt})
    });
}

pub fn c02(ctx: &Ctx) -> i32 {
    for t in 1..=3 {
        c02_for::<5>(ctx, t);
    }
    c02_for::<7>(ctx, 2);
    c02_for::<3>(ctx, 2);
    if ctx.thorough() {
        c02_for::<7>(ctx, 3);
        c02_for::<5>(ctx, 4);
        c02_for::<11>(ctx, 3);
        c02_for::<13>(ctx, 2);
    }
    // every size of a fresh polynomial: each coefficient is a fresh answer of the random source
    let e = SuiteEd25519::new_blake3_sha256_ed25519();
    let tmax = ctx.pick(70, 270);
    let ts: Vec<usize> = (1..=tmax).chain([127, 128, 129, 255, 256, 257, 258]).collect();
    par_items(&ts, |&t| {
        for given in [true, false] {
            let case = || json!({"t": t, "secret given": given});
            let mk = || new_pri_poly(e, t, given.then(|| e.scalar().one()), kyber_rs::Random::random_stream(&e));
            let (Some(p), Some(p2)) = (ctx.nopanic("fresh-panic", case, mk), ctx.nopanic("fresh-panic", case, mk)) else { continue };
            let (c, c2) = (p.coefficients(), p2.coefficients());
            ctx.eval();
            ctx.nontriv();
            if !ctx.check(c.len() == t && c2.len() == t && p.threshold() == t, "fresh-length", "a fresh polynomial has the wrong length", case) {
                continue;
            }
            let from = given as usize;
            let fresh: Vec<_> = c[from..].iter().chain(&c2[from..]).cloned().collect();
            for i in 0..fresh.len() {
                for j in 0..i {
                    ctx.check(fresh[i] != fresh[j], "coeff-repeat", "two coefficients of fresh polynomials coincide", || json!({"t": t, "i": i, "j": j, "per polynomial": t - from}));
                }
                ctx.check(fresh[i] != e.scalar().zero() && fresh[i] != e.scalar().one(), "coeff-trivial", "a fresh coefficient is 0 or 1", || json!({"t": t, "i": i}));
            }
            ctx.trace(1);
            // the random source's answers, counted: t - 1 (or t) of them, one per coefficient, and nothing derived from another
            let m = Toy::<M61>;
            let k = t - from;
            let ans: Vec<u64> = (0..k as u64).map(|i| (i + 1) * 0x0123_4567_89ab_cde % M61).collect();
            script_rng(ans.clone());
            let Some(p) = ctx.nopanic("fresh-panic", case, || new_pri_poly(m, t, given.then_some(TS(5)), ToyStream)) else { continue };
            let mut got: Vec<u64> = p.coefficients()[from.min(p.coefficients().len())..].iter().map(|x| x.0).collect();
            let mut want = ans.clone();
            got.sort();
            want.sort();
            ctx.check(got == want, "coeff-not-drawn", "the coefficients of a fresh polynomial are not the random source's answers", case);
        }
    });
    ctx.bound("every answer sequence of the random source, every secret, every (t-1)-subset of share indices, q in {3,5,7}, t<=3; Ed25519 and Z_(2^61-1): every t up to 70 (thorough 270), each coefficient a separate answer");
    0
}

fn c03_group<G: Group + Sync>(
    ctx: &Ctx,
    g: &G,
    t: usize,
    polys: &[Vec<Sc<G>>],
    vals: &[Sc<G>],
    bases: &[Option<Sc<G>>],
    idxs: &[usize],
    fullp: usize,
) where
    Sc<G>: Sync,
    G::POINT: Sync + Send,
{
    let lists = share_lists(idxs, fullp, t);
    let gname = g.to_string();
    let nmax = (idxs.iter().max().unwrap() + 1).min(1 << 16);
    par_items(polys, |c| {
        let p = coefficients_to_pri_poly(g, c);
        for b in bases {
            let bp = b.as_ref().map(|s| mulpt(g, s, None));
            let bref = bp.as_ref();
            let case = || json!({"group": gname, "coeffs": format!("{c:?}"), "base": format!("{b:?}"), "t": t});
            let pb = p.commit(bref);
            ctx.eval();
            ctx.check(pb.threshold() == t, "threshold", "PubPoly threshold differs from t", case);
            let (ib, ic) = pb.info();
            ctx.check(ib == bp, "info-base", "info() base is not the commitment base", case);
            ctx.check(ic.len() == t && ic.iter().zip(c).all(|(x, y)| x == &mulpt(g, y, bref)), "commit", "commitment coefficients are not b^{c_j}", case);
            ctx.check(pb.commit() == mulpt(g, &c[0], bref), "secret-commit", "commit() is not b^{p(0)}", case);
            for i in idxs {
                let want = ref_eval(g, c, *i);
                let ev = pb.eval(*i);
                ctx.check(ev.i == *i && ev.v == mulpt(g, &want, bref), "eval", "PubPoly::eval(i) is not the commitment of p(i)", case);
                for v in vals.iter().chain([&want]) {
                    ctx.eval();
                    let s = PriShare { i: *i, v: v.clone() };
                    let ok = pb.check(&s);
                    if *v == want {
                        ctx.nontriv();
                    }
                    ctx.check(ok == (*v == want), "check", "check() does not accept exactly the genuine share", || {
                        json!({"group": gname, "coeffs": format!("{c:?}"), "base": format!("{b:?}"), "i": i, "v": v.to_string(), "accepted": ok})
                    });
                }
            }
            let sh = pb.shares(3);
            ctx.check(sh.len() == 3 && sh.iter().enumerate().all(|(i, s)| s.as_ref().map(|s| s.i == i && s.v == pb.eval(i).v) == Some(true)), "shares", "shares(n) is not eval(0..n)", case);
            // recovery of the committed secret / whole public polynomial
            for l in &lists {
                ctx.eval();
                let mut d: Vec<usize> = l.iter().flatten().copied().collect();
                d.sort();
                d.dedup();
                let shares: Vec<_> = l.iter().map(|x| x.map(|i| pb.eval(i))).collect();
                let lc = || json!({"group": gname, "coeffs": format!("{c:?}"), "base": format!("{b:?}"), "t": t, "share_indices": l});
                if let Some(r) = ctx.nopanic("recover-commit-panic", lc, || recover_commit(g.clone(), &shares, t, nmax)) {
                    match (d.len() >= t, r) {
                        (true, Ok(v)) => {
                            ctx.nontriv();
                            ctx.check(v == mulpt(g, &c[0], bref), "recover-commit", "recover_commit is not the commitment of the secret", lc);
                        }
                        (true, Err(e)) => ctx.fail("recover-commit-err", format!("error {e} with t shares"), lc()),
                        (false, Ok(_)) => ctx.fail("recover-commit-below", "recovered with fewer than t shares", lc()),
                        (false, Err(_)) => {}
                    }
                }
                if let Some(r) = ctx.nopanic("recover-pub-panic", lc, || recover_pub_poly(g.clone(), &shares, t, nmax)) {
                    match (d.len() >= t, r) {
                        (true, Ok(v)) => {
                            ctx.nontriv();
                            let (_, rc) = v.info();
                            ctx.check(rc == ic, "recover-pub", "recover_pub_poly does not return the committed polynomial", lc);
                        }
                        (true, Err(e)) => ctx.fail("recover-pub-err", format!("error {e} with t shares"), lc()),
                        (false, Ok(_)) => ctx.fail("recover-pub-below", "recovered with fewer than t shares", lc()),
                        (false, Err(_)) => {}
                    }
                }
                ctx.sample("recover", lc);
            }
        }
    });
}

/// homomorphism of add and semantics of equal over all pairs
fn c03_pairs<const Q: u64>(ctx: &Ctx, maxt: usize) {
    let g = Toy::<Q>;
    let mut polys = vec![];
    for t in 1..=maxt {
        polys.extend(toy_polys::<Q>(t));
    }
    par_items(&polys, |a| {
        for b in &polys {
            ctx.eval();
            let (pa, pb) = (coefficients_to_pri_poly(&g, a).commit(None), coefficients_to_pri_poly(&g, b).commit(None));
            let case = || json!({"q": Q, "a": format!("{a:?}"), "b": format!("{b:?}")});
            if let Some(Ok(e)) = ctx.nopanic("pub-equal-panic", case, || pa.equal(&pb)) {
                ctx.check(e == (a == b), "pub-equal", "PubPoly::equal is not equality of the committed polynomials", case);
            }
            match (a.len() == b.len(), pa.add(&pb)) {
                (true, Ok(s)) => {
                    ctx.nontriv();
                    for i in 0..4 {
                        ctx.check(s.eval(i).v == g.point().add(&pa.eval(i).v, &pb.eval(i).v), "pub-add", "(p+q)(i) != p(i)+q(i)", case);
                    }
                }
                (true, Err(e)) => ctx.fail("pub-add-err", e.to_string(), case()),
                (false, Ok(_)) => ctx.fail("pub-add-len", "adding polynomials of different length succeeded", case()),
                (false, Err(_)) => {}
            }
        }
    });
}

/// sums and comparisons at every length: the two polynomials differ in every single coefficient in turn
fn lengths(ctx: &Ctx, public: bool) {
    let g = Toy::<M61>;
    let ts: Vec<usize> = (1..=ctx.pick(72, 300)).collect();
    par_items(&ts, |&t| {
        let m = |s: u64| -> Vec<TS<M61>> { (0..t as u64).map(|k| TS((k + s) * 0x1234_5678_9abc_def % M61)).collect() };
        let (a, b) = (m(3), m(40));
        let (pa, pb) = (coefficients_to_pri_poly(&g, &a), coefficients_to_pri_poly(&g, &b));
        let (ca, cb) = (pa.commit(None), pb.commit(None));
        let sum: Vec<TS<M61>> = a.iter().zip(&b).map(|(x, y)| x.clone() + y.clone()).collect();
        let case = || json!({"t": t, "operation": "sum and comparison"});
        ctx.eval();
        ctx.nontriv();
        if public {
            match ctx.nopanic("pub-add-panic", case, || ca.add(&cb)) {
                Some(Ok(s)) => {
                    let want = coefficients_to_pri_poly(&g, &sum).commit(None);
                    ctx.check(s.info().1 == want.info().1, "pub-add-long", "the sum of the commitments is not the commitment of the sum", case);
                }
                Some(Err(e)) => ctx.fail("pub-add-err", e.to_string(), case()),
                None => {}
            }
        } else {
            match ctx.nopanic("add-panic", case, || pa.add(&pb)) {
                Some(Ok(s)) => {
                    ctx.check(s.coefficients() == sum, "add-long", "the coefficients of the sum are not the sums of the coefficients", case);
                }
                Some(Err(e)) => ctx.fail("add-err", e.to_string(), case()),
                None => {}
            }
        }
        for j in 0..t {
            let mut d = a.clone();
            d[j] = d[j].clone() + TS(1);
            let pd = coefficients_to_pri_poly(&g, &d);
            let case = || json!({"t": t, "operation": "comparison", "coefficient": j});
            ctx.eval();
            let same = coefficients_to_pri_poly(&g, &a);
            let r = if public {
                ctx.nopanic("equal-panic", case, || (ca.equal(&pd.commit(None)).ok(), ca.equal(&same.commit(None)).ok()))
            } else {
                ctx.nopanic("equal-panic", case, || (pa.equal(&pd).ok(), pa.equal(&same).ok()))
            };
            if let Some(r) = r {
                ctx.check(r == (Some(false), Some(true)), "equal-long", "equality must be decided by every coefficient", case);
            }
        }
    });
    ctx.extra("sums and comparisons at every length up to", json!(ts.len()));
}

pub fn c03(ctx: &Ctx) -> i32 {
    lengths(ctx, true);
    let all7: Vec<TS<7>> = (0..7).map(TS).collect();
    let bases: Vec<Option<TS<7>>> = std::iter::once(None).chain((1..7).map(|x| Some(TS(x)))).collect();
    for t in 1..=2 {
        c03_group(ctx, &Toy::<7>, t, &toy_polys::<7>(t), &all7, &bases, &[0, 1, 2, 3], 2);
        c03_group(ctx, &Toy::<7>, t, &toy_polys::<7>(t), &all7, &[None], &[1, 3, 4, 5], 2);
    }
    c03_group(ctx, &Toy::<7>, 3, &toy_polys::<7>(3), &all7, &[None, Some(TS(3))], &[0, 1, 2, 4], 2);
    c03_pairs::<5>(ctx, ctx.pick(2, 3));
    if ctx.thorough() {
        c03_group(ctx, &Toy::<7>, 3, &toy_polys::<7>(3), &all7, &bases, &[0, 1, 2, 4, 5], 2);
        let all5: Vec<TS<5>> = (0..5).map(TS).collect();
        c03_group(ctx, &Toy::<5>, 4, &toy_polys::<5>(4), &all5, &[None, Some(TS(2))], &[0, 1, 2, 3], 2);
        c03_pairs::<7>(ctx, 2);
    }
    let e = SuiteEd25519::new_blake3_sha256_ed25519();
    let vals = vec![e.scalar().zero(), e.scalar().one()];
    for t in 1..=3 {
        let ps = ed_polys(t, ctx.pick(2, 4));
        c03_group(ctx, &e, t, &ps, &vals, &[None, Some(e.scalar().set_int64(7))], &[0, 1, 3], 2);
        ctx.trace(ps.len() as u64);
    }
    for (t, idxs, fullp) in scales(ctx) {
        let m: Vec<TS<M61>> = (0..t as u64).map(|k| TS((k + 3) * 0x1234_5678_9abc_def % M61)).collect();
        c03_group(ctx, &Toy::<M61>, t, &[m], &[TS(0), TS(1)], &[None, Some(TS(9))], &idxs, fullp);
        if t <= 3 {
            c03_group(ctx, &e, t, &ed_polys(t, 2)[1..2], &vals, &[None], &idxs, fullp);
        }
    }
    ctx.bound("Z_7: all polynomials t<=3, all bases (t<=2), all candidate share values, all share subsets; Z_5: all pairs of polynomials of length <=2; Ed25519 boundary coefficients; scales: see the extra entry");
    0
}

fn c04_group<G: Group + Sync>(ctx: &Ctx, g: &G, polys: &[Vec<Sc<G>>], idxs: &[usize], fullp: usize, pairs: bool)
where
    Sc<G>: Sync,
{
    let gname = g.to_string();
    let lists = share_lists(idxs, fullp, polys[0].len());
    let nmax = (idxs.iter().max().unwrap() + 1).min(1 << 16);
    par_items(polys, |c| {
        let p = coefficients_to_pri_poly(g, c);
        let t = c.len();
        let case0 = || json!({"group": gname, "coeffs": format!("{c:?}")});
        ctx.check(p.coefficients() == *c && p.secret() == c[0] && p.threshold() == t, "accessors", "coefficients/secret/threshold disagree with the polynomial", case0);
        for l in &lists {
            ctx.eval();
            let mut d: Vec<usize> = l.iter().flatten().copied().collect();
            d.sort();
            d.dedup();
            let shares: Vec<_> = l.iter().map(|x| x.map(|i| p.eval(i))).collect();
            let case = || json!({"group": gname, "coeffs": format!("{c:?}"), "t": t, "share_indices": l});
            if let Some(r) = ctx.nopanic("recover-pri-panic", case, || recover_pri_poly(g, &shares, t, nmax)) {
                match (d.len() >= t, r) {
                    (true, Ok(v)) => {
                        ctx.nontriv();
                        ctx.check(v.coefficients() == *c, "recover-pri", "recover_pri_poly does not return the shared polynomial", case);
                    }
                    (true, Err(e)) => ctx.fail("recover-pri-err", format!("error {e} with t shares"), case()),
                    (false, Ok(_)) => ctx.fail("recover-pri-below", "recovered with fewer than t shares", case()),
                    (false, Err(_)) => {}
                }
            }
            ctx.sample("recover_pri_poly", case);
        }
        if pairs {
            for d in polys {
                ctx.eval();
                ctx.nontriv();
                let q = coefficients_to_pri_poly(g, d);
                let case = || json!({"group": gname, "a": format!("{c:?}"), "b": format!("{d:?}")});
                match (c.len() == d.len(), p.add(&q)) {
                    (true, Ok(s)) => {
                        ctx.check(s.coefficients().len() == c.len(), "add-len", "sum has a different length", case);
                        for i in 0..c.len() + 1 {
                            ctx.check(s.eval(i).v == ref_eval(g, c, i) + ref_eval(g, d, i), "add", "(p+q)(i) != p(i)+q(i)", case);
                        }
                        ctx.check(s.secret() == c[0].clone() + d[0].clone(), "add-secret", "(p+q)(0) != p(0)+q(0)", case);
                    }
                    (true, Err(e)) => ctx.fail("add-err", e.to_string(), case()),
                    (false, Ok(_)) => ctx.fail("add-mismatch", "sum of polynomials of different length", case()),
                    (false, Err(_)) => {}
                }
                let m = p.mul(&q);
                ctx.check(m.coefficients().len() == c.len() + d.len() - 1, "mul-len", "product has the wrong length", case);
                for i in 0..c.len() + d.len() {
                    ctx.check(m.eval(i).v == ref_eval(g, c, i) * ref_eval(g, d, i), "mul", "(p*q)(i) != p(i)*q(i)", case);
                }
                ctx.check(m.secret() == c[0].clone() * d[0].clone(), "mul-secret", "(p*q)(0) != p(0)*q(0)", case);
                match p.equal(&q) {
                    Ok(b) => {
                        ctx.check(b == (c == d), "equal", "PriPoly::equal is not equality", case);
                    }
                    Err(e) => ctx.fail("equal-err", e.to_string(), case()),
                }
                ctx.sample("pair", case);
            }
        }
    });
}

pub fn c04(ctx: &Ctx) -> i32 {
    lengths(ctx, false);
    let mut polys: Vec<Vec<TS<5>>> = vec![];
    for t in 1..=3 {
        polys.extend(toy_polys::<5>(t));
    }
    c04_group(ctx, &Toy::<5>, &polys, &[0, 1, 2, 3], 3, true);
    c04_group(ctx, &Toy::<7>, &toy_polys::<7>(3), &[0, 1, 2, 4, 5], 3, false);
    if ctx.thorough() {
        c04_group(ctx, &Toy::<7>, &toy_polys::<7>(4), &[0, 1, 2, 3, 5], 3, false);
        let mut polys: Vec<Vec<TS<7>>> = vec![];
        for t in 1..=3 {
            polys.extend(toy_polys::<7>(t));
        }
        c04_group(ctx, &Toy::<7>, &polys, &[0, 1, 2, 3], 3, true);
    }
    let e = SuiteEd25519::new_blake3_sha256_ed25519();
    let mut ps = vec![];
    for t in 1..=3 {
        ps.extend(ed_polys(t, ctx.pick(2, 4)));
    }
    ctx.trace(ps.len() as u64);
    c04_group(ctx, &e, &ps, &[0, 1, 3], 3, true);
    for (t, idxs, fullp) in scales(ctx) {
        let m = |s: u64| -> Vec<TS<M61>> { (0..t as u64).map(|k| TS((k + s) * 0x1234_5678_9abc_def % M61)).collect() };
        let mut alt = m(3);
        alt[t / 2] = TS(8);
        c04_group(ctx, &Toy::<M61>, &[m(3), m(40), alt], &idxs, fullp, true);
        if t <= 3 {
            c04_group(ctx, &e, &ed_polys(t, 2)[1..2], &idxs, fullp, true);
        }
    }
    ctx.bound("Z_5: all pairs of polynomials of length <=3 (add, mul, equal), recovery from every subset/order/duplicate of 4 indices; Z_7 t=3 over 5 indices; Ed25519 boundary coefficients");
    0
}
