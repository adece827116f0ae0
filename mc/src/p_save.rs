//! C29: a node restored from its saved state goes on exactly like the one that was never interrupted.
//! The explorers of the other protocol checks call `twin` at every transition: the same event is applied to a
//! copy restored (JSON) just before it, and to a twin that was saved and restored (bincode) before every event
//! of its history; messages the twins get have been serialised and read back as well.
use crate::engine::*;
use crate::p_vss::canon;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;

pub fn bin<T: Serialize + DeserializeOwned>(t: &T) -> Result<T, String> {
    guard(|| bincode::serialize(t).map_err(|e| format!("save: {e}")).and_then(|b| bincode::deserialize(&b).map_err(|e| format!("load: {e}"))))?
}
pub fn js<T: Serialize + DeserializeOwned>(t: &T) -> Result<T, String> {
    guard(|| serde_json::to_string(t).map_err(|e| format!("save (json): {e}")).and_then(|b| serde_json::from_str(&b).map_err(|e| format!("load (json): {e}"))))?
}

/// Both formats give the same value back.
pub fn round<T: Serialize + DeserializeOwned>(ctx: &Ctx, what: &str, t: &T, case: &dyn Fn() -> Value) -> Option<T> {
    let c = canon(t);
    let mut out = None;
    for (f, r) in [("json", js(t)), ("bincode", bin(t))] {
        match r {
            Err(e) => ctx.fail(&format!("restore-unreadable-{what}"), format!("{f}: {e}"), case()),
            Ok(x) => {
                ctx.eval();
                ctx.check(canon(&x) == c, &format!("restore-changed-{what}"), &format!("what is read back from {f} must be what was written"), case);
                out = Some(x);
            }
        }
    }
    out
}

/// Twins of the explored states, by the history that leads to them.
pub struct Twins<T> {
    mask: bool,
    m: RefCell<HashMap<Vec<usize>, T>>,
    level: RefCell<usize>,
}
impl<T: Serialize + DeserializeOwned + Clone> Twins<T> {
    /// on the real suite signatures and encryptions are random: they are left out of the comparisons there
    pub fn new(name: &str) -> Self {
        Twins { mask: name.contains("ed25519"), m: RefCell::new(HashMap::new()), level: RefCell::new(0) }
    }
    pub fn fp<A: Serialize>(&self, a: &A) -> u128 {
        if self.mask {
            crate::canon::canon_masked(a)
        } else {
            canon(a)
        }
    }
    /// `before --ev--> after` with answer `out` is the uninterrupted transition, `path` leads to `before`.
    pub fn step<O: PartialEq + std::fmt::Debug>(&self, ctx: &Ctx, path: &[usize], ev: usize, before: &T, after: &T, out: &O, step: &dyn Fn(&mut T) -> O, obs: &dyn Fn(&T) -> String, case: &dyn Fn() -> Value) {
        if !ctx.restoring() {
            return;
        }
        if path.len() > *self.level.borrow() {
            *self.level.borrow_mut() = path.len();
            self.m.borrow_mut().retain(|k, _| k.len() >= path.len());
        }
        ctx.nontriv();
        let want = self.fp(after);
        let wobs = obs(after);
        let tw = self.m.borrow().get(path).cloned();
        let mut key = path.to_vec();
        key.push(ev);
        let tw = tw.unwrap_or(before.clone());
        for (k, f, src, r) in [(0, "json, once", before, js(before)), (1, "bincode, before every event", &tw, bin(&tw))] {
            ctx.eval();
            match r {
                Err(e) => ctx.fail("restore-unreadable-state", format!("{f}: {e}"), case()),
                Ok(mut g) => {
                    if canon(&g) != canon(src) || self.fp(&g) != self.fp(before) {
                        ctx.fail("restore-changed-state", format!("{f}: the restored state differs from the saved one"), case());
                    }
                    let o = step(&mut g);
                    if o != *out {
                        ctx.fail("restore-other-answer", format!("{f}: the restored node answers {o:?}, the uninterrupted one {out:?}"), case());
                    } else if self.fp(&g) != want {
                        ctx.fail("restore-other-state", format!("{f}: the restored node ends in another state"), case());
                    } else if obs(&g) != wobs {
                        ctx.fail("restore-other-result", format!("{f}: the restored node reports {}, the uninterrupted one {wobs}", obs(&g)), case());
                    }
                    if k == 1 {
                        self.m.borrow_mut().insert(key.clone(), g);
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------

/// scalars, points, integers, polynomials, keys and key shares
fn values(ctx: &Ctx) {
    use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler};
    use kyber_rs::group::edwards25519::{Curve, Point as EP, Scalar as ES, SuiteEd25519};
    use kyber_rs::group::integer_field::integer::{ByteOrder, Int};
    use kyber_rs::share::poly;
    use kyber_rs::sign::eddsa::EdDSA;
    use kyber_rs::{Group, Point, Scalar, XOFFactory};
    let c = Curve::default();
    let mut scalars: Vec<ES> = vec![];
    for k in 0..256usize {
        for d in [0i32, 1, -1] {
            let mut b = [0u8; 32];
            b[k / 8] = 1 << (k % 8);
            let mut s = ES::default();
            s.v = b;
            scalars.push(match d {
                0 => s,
                1 => s.clone() + c.scalar().one(),
                _ => c.scalar().sub(&s, &c.scalar().one()),
            });
        }
    }
    for s in &scalars {
        let case = || json!({"scalar": hex::encode(s.v)});
        if let Some(x) = round(ctx, "scalar", s, &case) {
            ctx.check(x == *s && x.v == s.v, "restore-scalar", "a restored scalar is the same scalar", case);
        }
        ctx.nontriv();
    }
    let mut pts: Vec<EP> = vec![c.point().null(), c.point().base()];
    for s in scalars.iter().step_by(ctx.pick(11, 3)) {
        let p = c.point().mul(s, None);
        // representations with other coordinates
        pts.push(c.point().add(&p, &p));
        pts.push(c.point().neg(&p));
        pts.push(p);
    }
    for p in &pts {
        let enc = p.marshal_binary().unwrap();
        let case = || json!({"point": hex::encode(&enc)});
        if let Some(x) = round(ctx, "point", p, &case) {
            let one = c.scalar().one();
            let ok = guard(|| x == *p && x.marshal_binary().ok() == Some(enc.clone()) && c.point().add(&x, &c.point().base()) == c.point().add(p, &c.point().base()) && c.point().mul(&one, Some(&x)) == *p);
            ctx.check(ok == Ok(true), "restore-point", "a restored point is the same point, encodes and computes alike", case);
        }
        let mut q = c.point();
        if q.unmarshal_binary(&enc).is_ok() {
            round(ctx, "point", &q, &case);
        }
        ctx.nontriv();
    }
    for m in 2i64..=ctx.pick(40, 130) {
        for v in 0..m {
            for o in [ByteOrder::BigEndian, ByteOrder::LittleEndian] {
                let mut x = Int::new_int(v.into(), m.into());
                x.bo = o;
                let case = || json!({"integer": v, "modulus": m});
                if let Some(y) = round(ctx, "integer", &x, &case) {
                    ctx.check(y == x && y.marshal_binary().ok() == x.marshal_binary().ok() && guard(|| y.clone() + x.clone() == x.clone() + y.clone()) == Ok(true), "restore-integer", "a restored integer is the same, encodes and computes alike", case);
                }
                ctx.nontriv();
            }
        }
    }
    let suite = SuiteEd25519::new_blake3_sha256_ed25519();
    for t in 1..=ctx.pick(4, 8) {
        let p = poly::new_pri_poly(suite, t, Some(c.scalar().set_int64(5)), suite.xof(Some(b"c29")));
        let case = || json!({"polynomial": t});
        let pubp = p.commit(Some(&c.point().base()));
        let pubn = p.commit(None);
        if let Some(q) = round(ctx, "polynomial", &p, &case) {
            ctx.check((0..2 * t).all(|i| q.eval(i) == p.eval(i)) && q.coefficients() == p.coefficients(), "restore-polynomial", "a restored polynomial is the same", case);
        }
        for pp in [pubp, pubn] {
            if let Some(q) = round(ctx, "public-polynomial", &pp, &case) {
                ctx.check((0..2 * t).all(|i| q.eval(i).v == pp.eval(i).v && q.check(&p.eval(i)) == pp.check(&p.eval(i))) && q.commit() == pp.commit(), "restore-public-polynomial", "a restored public polynomial is the same", case);
            }
        }
        for i in 0..t + 2 {
            round(ctx, "share", &p.eval(i), &case);
            round(ctx, "public-share", &p.commit(None).eval(i), &case);
        }
        ctx.nontriv();
    }
    for b in [0u8, 1, 0x7f, 0xff] {
        let mut s = suite.xof(Some(&[b]));
        let Ok(Ok(k)) = guard(|| EdDSA::<Curve>::new(&mut s)) else { continue };
        let case = || json!({"seed byte": b});
        if let Some(q) = round(ctx, "signing-key", &k, &case) {
            let ok = guard(|| q.sign(b"m").ok() == k.sign(b"m").ok() && q.marshal_binary().ok() == k.marshal_binary().ok());
            ctx.check(ok == Ok(true), "restore-signing-key", "a restored signing key signs alike", case);
        }
        ctx.nontriv();
    }
}

/// a node saved before it dealt deals the same
fn before_dealing<X: crate::p_dkg::Dk>(ctx: &Ctx, n: usize) {
    use crate::p_dkg::GCfg;
    let keys: Vec<X::S> = (0..n).map(|i| X::sc(500 + i as i64)).collect();
    let pubs: Vec<X::P> = keys.iter().map(|k| X::pt(k)).collect();
    for me in 0..n {
        for t in 2..=n {
            let case = || json!({"suite": X::NAME, "n": n, "t": t, "node": me, "saved": "before dealing"});
            crate::toy::seed_rng("bd");
            let g = X::new(&GCfg { long: keys[me].clone(), old: vec![], new: pubs.clone(), coeffs: None, share: None, t, old_t: 0, seed: 5 }).expect("node");
            let Some(g2) = round(ctx, "state", &g, &case) else { continue };
            let deal = |mut g: X::G| {
                crate::toy::seed_rng("bd2");
                // (the encryption is randomised; who gets one, and the sharing)
                let mut d: Vec<usize> = X::deals(&mut g).expect("deals").keys().cloned().collect();
                d.sort();
                let plain: Vec<u128> = (0..n).map(|i| canon(&X::plain(&mut g, i))).collect();
                (d, plain, crate::canon::canon_masked(&g), X::sid(&g))
            };
            ctx.check(guard(|| deal(g2)) == guard(|| deal(g)), "restore-other-deals", "a node restored before dealing issues the same deals", case);
            ctx.nontriv();
        }
    }
}

pub fn c29(ctx: &Ctx) -> i32 {
    use crate::p_vss::{Cfg, PedEd, PedToy, RabEd, RabToy, Sch};
    ctx.restore.store(true, std::sync::atomic::Ordering::Relaxed);
    values(ctx);
    for n in 2..=ctx.pick(3, 4) {
        before_dealing::<crate::p_dkg::DkToy>(ctx, n);
    }
    before_dealing::<crate::p_dkg::DkEd>(ctx, 2);
    fn vss<X: Sch, Y: Sch>(ctx: &Ctx) {
        let mut cfgs = vec![];
        for kind in ["good", "share+1", "second", "second/declared-first", "commit-longer/sid", "t=3/sid", "sid-garbage", "rnd+1"] {
            if kind == "rnd+1" && !X::RABIN {
                continue;
            }
            for tset in if X::RABIN { vec![0] } else { vec![0, 2] } {
                cfgs.push((false, Cfg { n: 3, t: 2, tset, kind: kind.into(), full: ctx.thorough() || kind == "share+1" }));
            }
        }
        cfgs.push((false, Cfg { n: 4, t: 3, tset: 0, kind: "share+1".into(), full: false }));
        cfgs.push((true, Cfg { n: 2, t: 2, tset: 0, kind: "share+1".into(), full: false }));
        if ctx.thorough() {
            cfgs.push((true, Cfg { n: 3, t: 2, tset: 0, kind: "share+1".into(), full: false }));
        }
        par_items(&cfgs, |(ed, c)| {
            let mut p = vec![];
            if *ed {
                crate::p_vss::explore::<Y>(ctx, c, &mut p, 0)
            } else {
                crate::p_vss::explore::<X>(ctx, c, &mut p, 0)
            }
        });
        for (n, t) in ctx.pick(vec![(3, 2), (3, 3)], vec![(3, 2), (3, 3), (4, 2), (4, 3)]) {
            crate::p_vss::explore_dealer::<X>(ctx, n, t);
        }
        crate::p_vss::explore_dealer::<Y>(ctx, 2, 2);
    }
    vss::<PedToy, PedEd>(ctx);
    vss::<RabToy, RabEd>(ctx);
    crate::p_dkg::c29(ctx);
    crate::p_rab::c29(ctx);
    crate::p_dss::c29(ctx);
    ctx.bound("at every transition of every explored history: one restart just before it (JSON) and a restart before every event so far (bincode); messages serialised and read back; sharing n<=4, key generation and resharing n=2,3, two-phase key generation n=2,3 both phases, signing n<=3, on the finite group and smaller ones on Ed25519");
    0
}
