//! C33: a sharing hides its secret and is drawn afresh: the dealers of both schemes and the key generations,
//! over every answer of their random sources; and the random sources a key generation may be given.
use crate::engine::*;
use crate::toy::*;
use kyber_rs::group::edwards25519::SuiteEd25519;
use kyber_rs::share::dkg::{pedersen as pd, rabin as rd};
use kyber_rs::share::poly::{recover_pri_poly, PriShare};
use kyber_rs::share::vss::{pedersen as pv, rabin as rv};
use kyber_rs::{Group, Point, Scalar};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

type View = Vec<u64>;

/// a field of a deal as it travels
fn field<T: serde::de::DeserializeOwned>(d: &impl serde::Serialize, name: &str) -> T {
    let v = serde_json::to_value(d).expect("serialise");
    serde_json::from_value(v[name].clone()).expect("field")
}
fn share<S: Scalar>(d: &impl serde::Serialize, name: &str) -> PriShare<S> {
    let m: crate::p_vss::MShare<S> = field(d, name);
    PriShare { i: m.i, v: m.v }
}

/// what a participant gets of a sharing (secret share, blinding share) and what everybody sees (commitments)
struct Dealt {
    shares: Vec<(u64, u64)>,
    public: Vec<u64>,
    secret: u64,
}

fn pedersen<const Q: u64>(verifiers: &[TP<Q>], t: usize, s: u64) -> Result<Dealt, String> {
    let mut d = pv::vss::new_dealer(Toy::<Q>, TS(1), TS(s), verifiers, t).map_err(|e| e.to_string())?;
    let mut shares = vec![];
    for i in 0..verifiers.len() {
        let p = d.plaintext_deal(i).map_err(|e| e.to_string())?;
        shares.push((share::<TS<Q>>(p, "sec_share").v.0, 0));
    }
    // the commitments of this scheme fix the secret: they hide it from those who cannot take logarithms only
    Ok(Dealt { shares, public: vec![], secret: d.private_poly().secret().0 })
}
fn rabin<const Q: u64>(verifiers: &[TP<Q>], t: usize, s: u64) -> Result<Dealt, String> {
    let mut d = rv::vss::new_dealer(Toy::<Q>, TS(1), TS(s), verifiers, t).map_err(|e| e.to_string())?;
    dealt_rabin(&mut d, verifiers.len(), s)
}
fn dealt_rabin<const Q: u64>(d: &mut rv::vss::Dealer<Toy<Q>>, n: usize, secret: u64) -> Result<Dealt, String> {
    let mut shares = vec![];
    let mut public = vec![];
    for i in 0..n {
        let p = d.plaintext_deal(i).map_err(|e| e.to_string())?;
        shares.push((share::<TS<Q>>(p, "sec_share").v.0, share::<TS<Q>>(p, "rnd_share").v.0));
        public = field::<Vec<TP<Q>>>(p, "commitments").iter().map(|c| c.0).collect();
    }
    Ok(Dealt { shares, public, secret })
}
/// rabin key generation: the secret is drawn as well
fn rabin_dkg<const Q: u64>(verifiers: &[TP<Q>], t: usize, _s: u64) -> Result<Dealt, String> {
    let mut g = rd::new_dist_key_generator(&Toy::<Q>, &TS(1), verifiers, t).map_err(|e| e.to_string())?;
    let mut d = dealt_rabin(&mut g.dealer, verifiers.len(), 0)?;
    let pick: Vec<_> = (0..t).map(|i| g.dealer.plaintext_deal(i).ok().map(|p| share::<TS<Q>>(p, "sec_share"))).collect();
    d.secret = recover_pri_poly(&Toy::<Q>, &pick, t, verifiers.len()).map_err(|e| e.to_string())?.secret().0;
    Ok(d)
}

/// For every (t-1)-subset of the participants: over every answer of the random source, what they hold (with the
/// public commitments where those are blinded) is distributed the same for every secret.
fn hiding<const Q: u64>(ctx: &Ctx, what: &str, n: usize, t: usize, drawn: bool, deal: &(dyn Fn(&[TP<Q>], usize, u64) -> Result<Dealt, String> + Sync)) {
    // participants' keys: every choice of n different ones that contains the dealer's
    let lists: Vec<Vec<TP<Q>>> = subsets(Q as usize - 2, n - 1).into_iter().map(|s| std::iter::once(TP(1)).chain(s.iter().map(|k| TP(*k as u64 + 2))).collect()).collect();
    let blinded = AtomicUsize::new(0);
    for vs in &lists {
        script_rng(vec![]);
        let case0 = || json!({"dealing": what, "q": Q, "n": n, "t": t, "participants": format!("{vs:?}")});
        match ctx.nopanic("deal-panic", case0, || deal(vs, t, 1)) {
            Some(Ok(_)) => {}
            Some(Err(e)) => {
                ctx.fail("deal-refused", e, case0());
                continue;
            }
            None => continue,
        }
        let k = script_draws();
        if (Q as f64).powi(k as i32) * Q as f64 > 3e6 {
            ctx.extra("skipped (too many answers)", json!(k));
            continue;
        }
        let answers = tuples(Q as usize, k);
        let secrets: Vec<u64> = if drawn { vec![0] } else { (0..Q).collect() };
        let mut runs: Vec<Vec<Dealt>> = vec![];
        for s in &secrets {
            let mut row = vec![];
            for a in &answers {
                ctx.eval();
                ctx.tr(1);
                script_rng(a.iter().map(|x| *x as u64).collect());
                match ctx.nopanic("deal-panic", case0, || deal(vs, t, *s)) {
                    Some(Ok(d)) => {
                        ctx.check(drawn || d.secret == *s, "secret-changed", "the shared secret is not the one given", case0);
                        row.push(d)
                    }
                    _ => {
                        ctx.fail("deal-refused", "a dealing fails for some answer of the random source", case0());
                        return;
                    }
                }
            }
            runs.push(row);
        }
        // is the blinding generator the neutral element of this tiny group for these participants?
        let seen: BTreeSet<&View> = runs[0].iter().filter(|d| d.secret == runs[0][0].secret).map(|d| &d.public).collect();
        let firsts: BTreeSet<u64> = seen.iter().filter_map(|v| v.first().copied()).collect();
        let use_public = firsts.len() > 1;
        if use_public {
            blinded.fetch_add(1, Ordering::Relaxed);
        }
        for sub in subsets(n, t - 1) {
            // (secret, what these participants know) -> how often
            let mut m: BTreeMap<u64, BTreeMap<View, u64>> = BTreeMap::new();
            for row in &runs {
                for d in row {
                    let mut v: View = sub.iter().flat_map(|i| [d.shares[*i].0, d.shares[*i].1]).collect();
                    if use_public {
                        v.extend(&d.public);
                    }
                    *m.entry(d.secret).or_default().entry(v).or_insert(0) += 1;
                }
            }
            ctx.nontriv();
            ctx.st(m.values().map(|x| x.len() as u64).sum());
            let first = m.values().next().cloned().unwrap_or_default();
            ctx.check(m.len() == Q as usize && m.values().all(|x| *x == first), "sharing-not-hiding", "what fewer than t participants hold depends on the secret", || json!({"dealing": what, "q": Q, "n": n, "t": t, "participants": format!("{vs:?}"), "observers": sub, "with commitments": use_public}));
            // and is itself uniform: every value of their shares is equally likely
            let mut c: BTreeMap<View, u64> = BTreeMap::new();
            for row in &runs {
                for d in row {
                    *c.entry(sub.iter().map(|i| d.shares[*i].0).collect()).or_insert(0) += 1;
                }
            }
            let x = c.values().next().copied().unwrap_or(0);
            ctx.check(c.len() as u64 == Q.pow(t as u32 - 1) && c.values().all(|v| *v == x), "shares-not-uniform", "the shares of fewer than t participants are not uniform", || json!({"dealing": what, "q": Q, "n": n, "t": t, "observers": sub}));
            ctx.sample("observers", || json!({"dealing": what, "q": Q, "observers": sub, "views": first.len()}));
        }
    }
    if what != "pedersen dealer" {
        ctx.check(blinded.load(Ordering::Relaxed) > 0, "commitments-not-blinded", "the commitments do not depend on the blinding polynomial for any group of participants", || json!({"dealing": what, "q": Q, "n": n, "t": t}));
    }
}

/// dealers of every size over the real group: no coefficient repeats within or between polynomials
fn sizes(ctx: &Ctx) {
    let e = SuiteEd25519::new_blake3_sha256_ed25519();
    let all: Vec<(usize, usize)> = (2..=ctx.pick(9, 20)).flat_map(|t| [(t, t), (t + 1, t)]).chain([(17, 16), (18, 17), (ctx.pick(20, 70), ctx.pick(18, 66))]).collect();
    par_items(&all, |&(n, t)| {
        let longs: Vec<_> = (0..n).map(|i| e.scalar().set_int64(1000 + i as i64)).collect();
        let keys: Vec<_> = longs.iter().map(|l| e.point().mul(l, None)).collect();
        let case = |w: &str| json!({"dealing": w, "n": n, "t": t});
        let fixed = e.scalar().set_int64(77);
        let coeffs = |pick: &[Option<kyber_rs::share::poly::PriShare<_>>]| recover_pri_poly(&e, pick, t, n).map(|p| p.coefficients()).map_err(|e| e.to_string());
        for round in ["given secret", "key generation"] {
            let mut lists: Vec<Vec<_>> = vec![];
            for _ in 0..2 {
                ctx.eval();
                let r = guard(|| -> Result<Vec<Vec<_>>, String> {
                    let rabin_polys = |d: &mut rv::vss::Dealer<SuiteEd25519>| -> Result<Vec<Vec<_>>, String> {
                        let p: Vec<_> = (0..t).map(|i| d.plaintext_deal(i).ok().map(|p| share(p, "sec_share"))).collect();
                        let q: Vec<_> = (0..t).map(|i| d.plaintext_deal(i).ok().map(|p| share(p, "rnd_share"))).collect();
                        Ok(vec![coeffs(&p)?, coeffs(&q)?])
                    };
                    if round == "given secret" {
                        let d = pv::vss::new_dealer(e, longs[0].clone(), fixed.clone(), &keys, t).map_err(|e| e.to_string())?;
                        let mut c = vec![d.private_poly().coefficients()[1..].to_vec()];
                        let mut d = rv::vss::new_dealer(e, longs[0].clone(), fixed.clone(), &keys, t).map_err(|e| e.to_string())?;
                        let r = rabin_polys(&mut d)?;
                        c.push(r[0][1..].to_vec());
                        c.push(r[1].clone());
                        Ok(c)
                    } else {
                        let d = pd::new_dist_key_generator::<SuiteEd25519, Src>(e, longs[0].clone(), &keys, t).map_err(|e| e.to_string())?;
                        let mut c = vec![d.dealer.private_poly().coefficients()];
                        let mut d = rd::new_dist_key_generator(&e, &longs[0], &keys, t).map_err(|e| e.to_string())?;
                        c.extend(rabin_polys(&mut d.dealer)?);
                        Ok(c)
                    }
                });
                match r {
                    Ok(Ok(l)) => lists.extend(l),
                    Ok(Err(x)) => ctx.fail("deal-refused", x, case(round)),
                    Err(x) => ctx.fail("deal-panic", x, case(round)),
                }
            }
            let flat: Vec<_> = lists.iter().flatten().collect();
            ctx.nontriv();
            for i in 0..flat.len() {
                for j in 0..i {
                    ctx.check(flat[i] != flat[j], "coefficient-repeats", "two coefficients of freshly drawn polynomials coincide", || case(round));
                }
                let small = [0, 1, -1, 77].iter().any(|k| *flat[i] == e.scalar().set_int64(*k));
                ctx.check(!small, "coefficient-not-drawn", "a coefficient is a constant", || case(round));
            }
        }
    });
}

/// a user's entropy source: behaviour and content chosen by the explorer; counts what was taken from it
#[derive(Clone, Default)]
struct Src {
    kind: &'static str,
    seed: u8,
    flip: Option<usize>,
    pos: usize,
    taken: Arc<AtomicUsize>,
}
impl std::io::Read for Src {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = match self.kind {
            "dead" => return Err(std::io::Error::new(std::io::ErrorKind::Other, "dead")),
            "dry" => return Ok(0),
            "short" if self.pos >= 20 => return Ok(0),
            "short" => b.len().min(20 - self.pos),
            "bytewise" => b.len().min(1),
            _ => b.len(),
        };
        for x in b[..n].iter_mut() {
            *x = if self.kind == "zeros" { 0 } else { self.seed.wrapping_mul(31).wrapping_add(self.pos as u8) };
            if self.flip == Some(self.pos) {
                *x ^= 1 << (self.pos % 8);
            }
            self.pos += 1;
        }
        self.taken.fetch_add(n, Ordering::Relaxed);
        Ok(n)
    }
}
const KINDS: [&str; 6] = ["healthy", "zeros", "bytewise", "dead", "dry", "short"];

/// the secret a node contributes to a key generation, for every kind of user source and both modes
fn sources(ctx: &Ctx) {
    let e = SuiteEd25519::new_blake3_sha256_ed25519();
    let sizes: Vec<(usize, usize)> = (2..=ctx.pick(5, 9)).flat_map(|n| (2..=n).map(move |t| (n, t))).collect();
    let mut jobs = vec![];
    for s in &sizes {
        for kind in KINDS.iter().map(|k| Some(*k)).chain([None]) {
            for only in [false, true] {
                // (a source that repeats one block for ever never leaves rejection sampling, if it is the only one)
                if !(only && kind == Some("zeros")) {
                    jobs.push((s.0, s.1, kind, only));
                }
            }
        }
    }
    par_items(&jobs, |&(n, t, kind, only)| {
        let longs: Vec<_> = (0..n).map(|i| e.scalar().set_int64(1000 + i as i64)).collect();
        let keys: Vec<_> = longs.iter().map(|l| e.point().mul(l, None)).collect();
        let make = |who: usize, seed: u8, flip: Option<usize>| {
            let taken = Arc::new(AtomicUsize::new(0));
            let src = kind.map(|k| Src { kind: k, seed, flip, pos: 0, taken: taken.clone() });
            let r = guard(|| {
                pd::new_dist_key_handler(pd::Config {
                    suite: e,
                    longterm: longs[who].clone(),
                    old_nodes: vec![],
                    public_coeffs: None,
                    new_nodes: keys.clone(),
                    share: None,
                    threshold: t,
                    old_threshold: 0,
                    reader: src,
                    user_reader_only: only,
                })
                .map(|g| g.dealer.private_poly().coefficients())
                .map_err(|e| e.to_string())
            });
            (r.ok().and_then(|r| r.ok()), taken.load(Ordering::Relaxed))
        };
        let case = || json!({"n": n, "t": t, "user source": kind, "user source only": only});
        ctx.eval();
        ctx.tr(1);
        name_case(&format!("n={n} t={t} source {kind:?} only={only}"));
        let (a, used) = make(0, 5, None);
        let (b, _) = make(0, 5, None);
        let dead = matches!(kind, Some("dead" | "dry" | "short"));
        if only && dead {
            ctx.check(a.is_none() && b.is_none(), "key-from-dead-source", "a key generation starts although its only random source gives nothing", case);
            return;
        }
        let (Some(a), Some(b)) = (a, b) else {
            ctx.fail("start-refused", "a key generation does not start although a random source works", case());
            return;
        };
        ctx.nontriv();
        ctx.check(a.len() == t && b.len() == t, "length", "the polynomial must have t coefficients", case);
        if only && kind.is_some() {
            // reproducible, and a function of every byte that was taken
            ctx.check(a[0] == b[0], "not-reproducible", "with the user's source only, the contributed secret is determined by it", case);
            if !ctx.check(used >= 32, "too-little-entropy", "fewer than 32 bytes of the only source make the secret", || json!({"n": n, "t": t, "user source": kind, "taken": used})) {
                return;
            }
            // (the last draw is the one that was not rejected)
            for f in used - 32..used {
                ctx.eval();
                let (c, _) = make(0, 5, Some(f));
                match c {
                    Some(c) => {
                        ctx.check(c[0] != a[0], "source-byte-ignored", "the contributed secret does not depend on a byte of the source", || json!({"n": n, "t": t, "user source": kind, "byte": f}));
                    }
                    None => ctx.fail("start-refused", "a key generation does not start although a random source works", case()),
                }
            }
        } else {
            // a weak or copied user source does not make the secret predictable
            ctx.check(a[0] != b[0], "secret-repeats", "two key generations with the same user source contribute the same secret", case);
            for i in 1..n {
                let (c, _) = make(i, 5, None);
                ctx.check(c.is_some_and(|c| c[0] != a[0] && c[0] != b[0]), "secret-shared", "two nodes with the same user source contribute the same secret", case);
            }
            if kind.is_some() && !dead {
                ctx.check(used >= 32, "source-not-used", "the user's source does not contribute", || json!({"n": n, "t": t, "user source": kind, "taken": used}));
            }
            for i in 0..t {
                for j in 0..t {
                    ctx.check(a[i] != b[j] && (i == j || a[i] != a[j]), "coefficient-repeats", "two coefficients of freshly drawn polynomials coincide", case);
                }
            }
        }
        ctx.outcome(if only { "user source only" } else { "combined" });
    });
    ctx.extra("configurations of sources", json!(jobs.len()));
}

pub fn c33(ctx: &Ctx) -> i32 {
    hiding::<5>(ctx, "pedersen dealer", 2, 2, false, &pedersen);
    hiding::<5>(ctx, "pedersen dealer", 3, 2, false, &pedersen);
    hiding::<5>(ctx, "pedersen dealer", 4, 3, false, &pedersen);
    hiding::<5>(ctx, "pedersen dealer", 4, 4, false, &pedersen);
    hiding::<7>(ctx, "pedersen dealer", 3, 3, false, &pedersen);
    hiding::<5>(ctx, "rabin dealer", 2, 2, false, &rabin);
    hiding::<5>(ctx, "rabin dealer", 3, 2, false, &rabin);
    hiding::<7>(ctx, "rabin dealer", 4, 2, false, &rabin);
    hiding::<5>(ctx, "rabin dealer", 3, 3, false, &rabin);
    hiding::<5>(ctx, "rabin key generation", 3, 2, true, &rabin_dkg);
    hiding::<7>(ctx, "rabin key generation", 3, 2, true, &rabin_dkg);
    if ctx.thorough() {
        hiding::<5>(ctx, "rabin dealer", 4, 3, false, &rabin);
        hiding::<7>(ctx, "pedersen dealer", 5, 4, false, &pedersen);
        hiding::<5>(ctx, "rabin key generation", 3, 3, true, &rabin_dkg);
    }
    sizes(ctx);
    sources(ctx);
    ctx.bound("every answer of the random source x every secret x every (t-1)-subset x every list of participants over Z_5, Z_7 (t<=4); dealers of up to 20 (70) participants on Ed25519; 7 kinds of user sources x 2 modes x n<=5 (9)");
    0
}
