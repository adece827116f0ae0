//! C14 / C16: verifiable secret sharing, both schemes. One observed participant (verifier or dealer) is the
//! real code; its environment delivers every message of an alphabet in every order, to closure.
use crate::engine::*;
use crate::toy::*;
use kyber_rs::group::edwards25519::{Point as EdPoint, Scalar as EdScalar, SuiteEd25519};
use kyber_rs::share::poly::PriShare;
use kyber_rs::share::vss::{pedersen, rabin};
use kyber_rs::sign::schnorr;
use kyber_rs::encoding::BinaryMarshaler;
use kyber_rs::{Group, Point, Scalar};
use sha2::Digest;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;

pub type Toy61 = Toy<M61>;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MShare<S> {
    pub i: usize,
    pub v: S,
}
/// mirror of a plaintext deal (by field name)
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(bound(deserialize = "S: Deserialize<'de>, P: Deserialize<'de>"))]
pub struct MDeal<S, P> {
    pub session_id: Vec<u8>,
    pub sec_share: MShare<S>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub rnd_share: Option<MShare<S>>,
    pub t: usize,
    pub commitments: Vec<P>,
}

pub fn conv<A: Serialize, B: DeserializeOwned>(a: &A) -> B {
    serde_json::from_value(serde_json::to_value(a).expect("ser")).expect("mirror structure")
}
pub use crate::canon::canon;

/// One (scheme, suite) instance. Everything is the crate's public interface.
pub trait Sch: Clone + 'static + Sync + Send {
    const RABIN: bool;
    const NAME: &'static str;
    type S: Scalar + Serialize + DeserializeOwned + std::fmt::Debug + PartialEq + Send + Sync + 'static;
    type P: Point<SCALAR = Self::S> + Serialize + DeserializeOwned + std::fmt::Debug + Send + Sync + 'static;
    type D: Clone + Serialize + DeserializeOwned + Send + Sync;
    type V: Clone + Serialize + DeserializeOwned + Send + Sync;
    type ED: Clone + Serialize + DeserializeOwned + Send + Sync;
    type R: Clone + Serialize + DeserializeOwned + Send + Sync;
    type J: Clone + Serialize + DeserializeOwned + Send + Sync;
    fn sc(v: i64) -> Self::S;
    fn pt(s: &Self::S) -> Self::P;
    fn dealer(long: &Self::S, secret: &Self::S, pubs: &[Self::P], t: usize) -> Result<Self::D, String>;
    fn verifier(long: &Self::S, dpub: &Self::P, pubs: &[Self::P]) -> Result<Self::V, String>;
    fn d_sid(d: &Self::D) -> Vec<u8>;
    fn plain(d: &mut Self::D, i: usize) -> Result<MDeal<Self::S, Self::P>, String>;
    fn set_plain(d: &mut Self::D, i: usize, m: &MDeal<Self::S, Self::P>);
    fn enc(d: &Self::D, i: usize) -> Result<Self::ED, String>;
    fn decrypt(v: &Self::V, e: &Self::ED) -> Result<MDeal<Self::S, Self::P>, String>;
    fn resp(sid: &[u8], idx: u32, ok: bool, sig: Vec<u8>) -> Self::R;
    fn resp_signed(sid: &[u8], idx: u32, ok: bool, key: &Self::S) -> Self::R;
    fn rparts(r: &Self::R) -> (Vec<u8>, u32, bool, Vec<u8>);
    fn v_deal(v: &mut Self::V, e: &Self::ED) -> Result<Self::R, String>;
    fn v_resp(v: &mut Self::V, r: &Self::R) -> Result<(), String>;
    fn v_just(v: &mut Self::V, j: &Self::J) -> Result<(), String>;
    fn v_timeout(v: &mut Self::V);
    fn v_set_t(v: &mut Self::V, t: usize);
    fn v_certified(v: &Self::V) -> bool;
    fn v_deal_out(v: &Self::V) -> Option<MDeal<Self::S, Self::P>>;
    fn v_missing(v: &Self::V) -> Option<Vec<usize>>;
    fn d_resp(d: &mut Self::D, r: &Self::R) -> Result<Option<Self::J>, String>;
    fn d_timeout(d: &mut Self::D);
    fn d_certified(d: &Self::D) -> bool;
    fn d_secret_commit(d: &Self::D) -> Option<Self::P>;
    fn recover(deals: &[MDeal<Self::S, Self::P>], n: usize, t: usize) -> Result<Self::S, String>;
    fn sign(key: &Self::S, msg: &[u8]) -> Vec<u8>;
    /// what a dealer with this key can send to verifier i: any plaintext, any ephemeral key, any nonce
    fn raw(long: &Self::S, pubs: &[Self::P], i: usize, plain: &[u8]) -> Self::ED;
    /// the dealer's signature over any justification it likes (None: it is not one)
    fn sign_just(j: &Value, key: &Self::S) -> Option<Self::J>;
    /// the deal as it is encrypted
    fn plain_bytes(m: &MDeal<Self::S, Self::P>) -> Vec<u8>;
}

macro_rules! sch {
    ($t:ident, $name:expr, $suite:ty, $mk:expr, $sc:ty, $pt:ty, $m:ident, $rabin:expr, $okf:ident, $newv:expr, $sett:expr, $miss:expr, $has_agg:expr, $ctx:expr) => {
        #[derive(Clone)]
        pub struct $t;
        impl Sch for $t {
            const RABIN: bool = $rabin;
            const NAME: &'static str = $name;
            type S = $sc;
            type P = $pt;
            type D = $m::vss::Dealer<$suite>;
            type V = $m::vss::Verifier<$suite>;
            type ED = $m::vss::EncryptedDeal<$pt>;
            type R = $m::vss::Response;
            type J = $m::vss::Justification<$suite>;
            fn sc(v: i64) -> $sc {
                $mk.scalar().set_int64(v)
            }
            fn pt(s: &$sc) -> $pt {
                $mk.point().mul(s, None)
            }
            fn dealer(long: &$sc, secret: &$sc, pubs: &[$pt], t: usize) -> Result<Self::D, String> {
                $m::vss::new_dealer($mk, long.clone(), secret.clone(), pubs, t).map_err(|e| format!("{e:?}"))
            }
            fn verifier(long: &$sc, dpub: &$pt, pubs: &[$pt]) -> Result<Self::V, String> {
                ($newv)(long, dpub, pubs)
            }
            fn d_sid(d: &Self::D) -> Vec<u8> {
                d.session_id()
            }
            fn plain(d: &mut Self::D, i: usize) -> Result<MDeal<$sc, $pt>, String> {
                d.plaintext_deal(i).map(|x| conv(x)).map_err(|e| format!("{e:?}"))
            }
            fn set_plain(d: &mut Self::D, i: usize, m: &MDeal<$sc, $pt>) {
                *d.plaintext_deal(i).expect("plaintext") = conv(m);
            }
            fn enc(d: &Self::D, i: usize) -> Result<Self::ED, String> {
                d.encrypted_deal(i).map_err(|e| format!("{e:?}"))
            }
            fn decrypt(v: &Self::V, e: &Self::ED) -> Result<MDeal<$sc, $pt>, String> {
                v.decrypt_deal(e).map(|x| conv(&x)).map_err(|e| format!("{e:?}"))
            }
            fn resp(sid: &[u8], idx: u32, ok: bool, sig: Vec<u8>) -> Self::R {
                $m::vss::Response { session_id: sid.to_vec(), index: idx, $okf: ok, signature: sig }
            }
            fn resp_signed(sid: &[u8], idx: u32, ok: bool, key: &$sc) -> Self::R {
                let mut r = Self::resp(sid, idx, ok, vec![]);
                let h = r.hash(&$mk).expect("hash");
                r.signature = schnorr::sign(&$mk, key, &h).expect("sign");
                r
            }
            fn rparts(r: &Self::R) -> (Vec<u8>, u32, bool, Vec<u8>) {
                (r.session_id.clone(), r.index, r.$okf, r.signature.clone())
            }
            fn v_deal(v: &mut Self::V, e: &Self::ED) -> Result<Self::R, String> {
                v.process_encrypted_deal(e).map_err(|e| format!("{e:?}"))
            }
            fn v_resp(v: &mut Self::V, r: &Self::R) -> Result<(), String> {
                v.process_response(r).map_err(|e| format!("{e:?}"))
            }
            fn v_just(v: &mut Self::V, j: &Self::J) -> Result<(), String> {
                v.process_justification(j).map_err(|e| format!("{e:?}"))
            }
            fn v_timeout(v: &mut Self::V) {
                v.set_timeout()
            }
            fn v_set_t(v: &mut Self::V, t: usize) {
                ($sett)(v, t)
            }
            fn v_certified(v: &Self::V) -> bool {
                // a verifier of the second scheme has no state (and dereferencing panics) before its deal
                if !($has_agg)(v) {
                    return false;
                }
                v.deal_certified()
            }
            fn v_deal_out(v: &Self::V) -> Option<MDeal<$sc, $pt>> {
                v.deal().map(|d| conv(&d))
            }
            fn v_missing(v: &Self::V) -> Option<Vec<usize>> {
                ($miss)(v)
            }
            fn d_resp(d: &mut Self::D, r: &Self::R) -> Result<Option<Self::J>, String> {
                d.process_response(r).map_err(|e| format!("{e:?}"))
            }
            fn d_timeout(d: &mut Self::D) {
                d.set_timeout()
            }
            fn d_certified(d: &Self::D) -> bool {
                d.deal_certified()
            }
            fn d_secret_commit(d: &Self::D) -> Option<$pt> {
                d.secret_commit()
            }
            fn recover(deals: &[MDeal<$sc, $pt>], n: usize, t: usize) -> Result<$sc, String> {
                $m::vss::recover_secret($mk, deals.iter().map(|d| conv(d)).collect(), n, t).map_err(|e| format!("{e:?}"))
            }
            fn sign(key: &$sc, msg: &[u8]) -> Vec<u8> {
                schnorr::sign(&$mk, key, msg).expect("sign")
            }
            fn raw(long: &$sc, pubs: &[$pt], i: usize, plain: &[u8]) -> Self::ED {
                let eph = Self::sc(991_199);
                let dh = Self::pt(&eph);
                let ctx = ($ctx)(&Self::pt(long), pubs);
                let gcm = kyber_rs::dh::AEAD::<$suite>::new(<$suite as kyber_rs::dh::Dh>::dh_exchange($mk, eph, pubs[i].clone()), &ctx).expect("aead");
                let cipher = gcm.seal(None, &[0u8; 12], plain, Some(&ctx)).expect("seal");
                serde_json::from_value(json!({"dhkey": dh, "signature": Self::sign(long, &dh.marshal_binary().unwrap()), "nonce": vec![0u8; 12], "cipher": cipher})).expect("encrypted deal")
            }
            fn sign_just(j: &Value, key: &$sc) -> Option<Self::J> {
                let mut h = b"justification".to_vec();
                let sid: Vec<u8> = serde_json::from_value(j["session_id"].clone()).ok()?;
                let ix: u32 = serde_json::from_value(j["index"].clone()).ok()?;
                let d: $m::vss::Deal<$suite> = serde_json::from_value(j["deal"].clone()).ok()?;
                h.extend(sid);
                h.extend(ix.to_le_bytes());
                h.extend(d.marshal_binary().ok()?);
                let mut j = j.clone();
                j["signature"] = json!(Self::sign(key, &sha2::Sha256::digest(&h)));
                serde_json::from_value(j).ok()
            }
            fn plain_bytes(m: &MDeal<$sc, $pt>) -> Vec<u8> {
                let d: $m::vss::Deal<$suite> = conv(m);
                d.marshal_binary().expect("deal")
            }
        }
    };
}
fn has_state<T: Serialize>(v: &T) -> bool {
    !serde_json::to_value(v).expect("ser")["aggregator"].is_null()
}
macro_rules! ped {
    ($t:ident,$n:expr,$suite:ty,$mk:expr,$sc:ty,$pt:ty) => {
        sch!(
            $t, $n, $suite, $mk, $sc, $pt, pedersen, false, status,
            |l: &$sc, d: &$pt, p: &[$pt]| pedersen::vss::new_verifier($mk, l, d, p).map_err(|e| format!("{e:?}")),
            |v: &mut pedersen::vss::Verifier<$suite>, t: usize| v.set_threshold(t),
            |v: &pedersen::vss::Verifier<$suite>| Some(v.missing_responses()),
            |_v: &pedersen::vss::Verifier<$suite>| true,
            |d: &$pt, p: &[$pt]| pedersen::vss::context($mk, d, p)
        );
    };
}
macro_rules! rab {
    ($t:ident,$n:expr,$suite:ty,$mk:expr,$sc:ty,$pt:ty) => {
        sch!(
            $t, $n, $suite, $mk, $sc, $pt, rabin, true, approved,
            |l: &$sc, d: &$pt, p: &[$pt]| rabin::vss::new_verifier(&$mk, l, d, p).map_err(|e| format!("{e:?}")),
            |_v: &mut rabin::vss::Verifier<$suite>, _t: usize| (),
            |_v: &rabin::vss::Verifier<$suite>| None,
            |v: &rabin::vss::Verifier<$suite>| has_state(v),
            |d: &$pt, p: &[$pt]| rabin::vss::context(&$mk, d, p)
        );
    };
}
ped!(PedToy, "pedersen/toy", Toy61, Toy::<M61>, TS<M61>, TP<M61>);
ped!(PedEd, "pedersen/ed25519", SuiteEd25519, SuiteEd25519::new_blake3_sha256_ed25519(), EdScalar, EdPoint);
rab!(RabToy, "rabin/toy", Toy61, Toy::<M61>, TS<M61>, TP<M61>);
rab!(RabEd, "rabin/ed25519", SuiteEd25519, SuiteEd25519::new_blake3_sha256_ed25519(), EdScalar, EdPoint);

pub fn share<S: Clone>(p: &PriShare<S>) -> MShare<S> {
    MShare { i: p.i, v: p.v.clone() }
}

// ------------------------------------------------------------------------------------------------
// the world: one dealer key, n verifier keys, two sharings by the same dealer

pub type MD<X> = MDeal<<X as Sch>::S, <X as Sch>::P>;

pub struct World<X: Sch> {
    pub n: usize,
    pub t: usize,
    pub longs: Vec<X::S>,
    pub pubs: Vec<X::P>,
    pub dlong: X::S,
    pub dpub: X::P,
    pub secret: X::S,
    pub dealer: X::D,
    pub dealer2: X::D,
    pub sid: Vec<u8>,
    pub sid2: Vec<u8>,
}

impl<X: Sch> World<X> {
    pub fn new(n: usize, t: usize) -> World<X> {
        let longs: Vec<X::S> = (0..n).map(|i| X::sc(1_000_003 + 7919 * i as i64)).collect();
        let pubs: Vec<X::P> = longs.iter().map(|l| X::pt(l)).collect();
        let dlong = X::sc(777_777_777);
        let dpub = X::pt(&dlong);
        let secret = X::sc(424_242_424_242);
        seed_rng("world-dealer");
        let dealer = X::dealer(&dlong, &secret, &pubs, t).expect("dealer");
        seed_rng("world-dealer2");
        let dealer2 = X::dealer(&dlong, &X::sc(171_717_171), &pubs, t).expect("dealer2");
        let (sid, sid2) = (X::d_sid(&dealer), X::d_sid(&dealer2));
        World { n, t, longs, pubs, dlong, dpub, secret, dealer, dealer2, sid, sid2 }
    }
    pub fn verifier(&self, i: usize) -> X::V {
        X::verifier(&self.longs[i], &self.dpub, &self.pubs).expect("verifier")
    }
    /// encrypts an arbitrary plaintext deal for recipient i, as the dealer would
    pub fn enc_as(&self, i: usize, m: &MD<X>) -> X::ED {
        let mut d = self.dealer.clone();
        X::set_plain(&mut d, i, m);
        seed_rng("enc");
        X::enc(&d, i).expect("enc")
    }
    /// the session identifier of the sharing with this content, as computed by a verifier
    pub fn consistent_sid(&self, m: &MD<X>) -> Option<Vec<u8>> {
        let i = m.sec_share.i;
        if i >= self.n {
            return None;
        }
        let e = self.enc_as(i, m);
        seed_rng("csid");
        let r = guard(|| X::v_deal(&mut self.verifier(i), &e));
        match r {
            Ok(Ok(r)) => Some(X::rparts(&r).0),
            _ => None,
        }
    }
    /// justification for complaint of i, revealing `m`, genuinely signed by the dealer of session `second`
    pub fn just_as(&self, i: usize, m: Option<&MD<X>>, second: bool) -> X::J {
        let mut d = if second { self.dealer2.clone() } else { self.dealer.clone() };
        let sid = if second { &self.sid2 } else { &self.sid };
        if let Some(m) = m {
            X::set_plain(&mut d, i, m);
        }
        seed_rng("just-r");
        let r = X::resp_signed(sid, i as u32, false, &self.longs[i]);
        seed_rng("just");
        X::d_resp(&mut d, &r).expect("dealer accepts a genuine complaint").expect("and answers it")
    }
}

/// What makes a plaintext deal good or bad, by construction.
#[derive(Clone)]
pub struct DK<X: Sch> {
    pub name: String,
    pub m: MD<X>,
    /// the share(s) match the commitments, commitments.len() == t, t valid
    pub content: bool,
    /// declared session id is the one of this content
    pub sid_ok: bool,
    /// commitments are those of: 0 = first sharing, 1 = second, 2 = neither
    pub poly: u8,
}

fn plus<S: Scalar>(a: &S, b: S) -> S {
    a.clone() + b
}

/// every kind of plaintext deal for recipient i
pub fn deal_kinds<X: Sch>(w: &World<X>, i: usize) -> Vec<DK<X>> {
    let mut d1 = w.dealer.clone();
    let mut d2 = w.dealer2.clone();
    let g = X::plain(&mut d1, i).unwrap();
    let g2 = X::plain(&mut d2, i).unwrap();
    let o = X::plain(&mut d1, (i + 1) % w.n).unwrap();
    let mut out: Vec<DK<X>> = vec![];
    let mut add = |name: &str, m: MD<X>, content: bool, sid_ok: bool, poly: u8| out.push(DK { name: name.into(), m, content, sid_ok, poly });
    add("good", g.clone(), true, true, 0);
    let mut m = g.clone();
    m.sec_share.v = plus(&g.sec_share.v, X::sc(1));
    add("share+1", m, false, true, 0);
    let mut m = g.clone();
    m.sec_share.v = X::sc(0);
    add("share=0", m, false, true, 0);
    let mut m = g.clone();
    m.sec_share.v = o.sec_share.v.clone();
    if let Some(r) = &o.rnd_share {
        m.rnd_share.as_mut().unwrap().v = r.v.clone();
    }
    add("share-of-other", m, false, true, 0);
    if X::RABIN {
        let mut m = g.clone();
        let r = m.rnd_share.as_mut().unwrap();
        r.v = plus(&r.v, X::sc(1));
        add("rnd+1", m, false, true, 0);
        let mut m = g.clone();
        m.rnd_share.as_mut().unwrap().i = (i + 1) % w.n;
        add("rnd-index", m, false, true, 0);
        let mut m = g.clone();
        m.rnd_share = g2.rnd_share.clone();
        add("rnd-of-second", m, false, true, 0);
    }
    // thresholds
    for tt in [0usize, 1, w.t - 1, w.t + 1, w.n, w.n + 1, usize::MAX, (1usize << 32) + w.t] {
        if tt == w.t {
            continue;
        }
        let mut m = g.clone();
        m.t = tt;
        add(&format!("t={tt}"), m, false, false, 0);
        let mut m = g.clone();
        m.t = tt;
        if let Some(s) = w.consistent_sid(&m) {
            let same = s == w.sid;
            m.session_id = s;
            add(&format!("t={tt}/sid"), m, false, !same, 0);
        }
    }
    // commitments
    let mut vars: Vec<(String, MD<X>)> = vec![];
    for k in 0..w.t {
        let mut m = g.clone();
        m.commitments[k] = m.commitments[k].clone().add(&g.commitments[k], &X::pt(&X::sc(1)));
        vars.push((format!("commit{k}+1"), m));
    }
    let mut m = g.clone();
    m.commitments.pop();
    vars.push(("commit-short".into(), m));
    let mut m = g.clone();
    m.commitments.clear();
    vars.push(("commit-empty".into(), m));
    let mut m = g.clone();
    m.commitments.push(X::pt(&X::sc(0)));
    vars.push(("commit+neutral".into(), m));
    // a longer polynomial agreeing with the share: adds c*(prod-free) term: C_t = D, C_0 -= x^t D
    let mut m = g.clone();
    let x = X::sc(i as i64 + 1);
    let mut xt = X::sc(1);
    for _ in 0..w.t {
        xt = xt * x.clone();
    }
    let dpt = X::pt(&X::sc(5));
    m.commitments.push(dpt.clone());
    let sub = dpt.clone().mul(&xt, Some(&dpt));
    m.commitments[0] = dpt.clone().sub(&g.commitments[0], &sub);
    vars.push(("commit-longer".into(), m));
    for (nm, m) in vars {
        add(&nm, m.clone(), false, false, 2);
        let mut m2 = m.clone();
        if let Some(s) = w.consistent_sid(&m2) {
            m2.session_id = s;
            add(&format!("{nm}/sid"), m2, false, true, 2);
        }
    }
    // equivocation: a perfectly valid deal of another sharing by the same dealer
    add("second", g2.clone(), true, true, 1);
    let mut m = g2.clone();
    m.session_id = w.sid.clone();
    add("second/declared-first", m, true, false, 1);
    let mut m = g.clone();
    m.session_id = w.sid2.clone();
    add("first/declared-second", m, true, false, 0);
    let mut m = g.clone();
    m.session_id = vec![0x5a; 32];
    add("sid-garbage", m, true, false, 0);
    let mut m = g.clone();
    m.session_id = vec![];
    add("sid-empty", m, true, false, 0);
    out
}

#[derive(Clone)]
pub struct JK<X: Sch> {
    pub name: String,
    pub i: u32,
    pub j: X::J,
    pub sid: Vec<u8>,
    pub signed: bool,
    pub d: DK<X>,
}

#[derive(Clone)]
pub enum Ev<X: Sch> {
    /// a deal that decrypts for the observed verifier
    Deal(DK<X>, X::ED),
    /// must be refused whatever the state
    DealErr(String, X::ED),
    Resp { i: usize, ok: bool, sid: Vec<u8>, r: X::R },
    RespErr(String, X::R),
    Just(JK<X>),
    Timeout,
}
pub fn ev_name<X: Sch>(w: &World<X>, e: &Ev<X>) -> String {
    match e {
        Ev::Deal(k, _) => format!("deal[{}]", k.name),
        Ev::DealErr(n, _) => format!("baddeal[{n}]"),
        Ev::Resp { i, ok, sid, .. } => format!("resp[{i},{},{}]", if *ok { "ok" } else { "complaint" }, if *sid == w.sid { "1" } else { "2" }),
        Ev::RespErr(n, _) => format!("badresp[{n}]"),
        Ev::Just(k) => format!("just[{}]", k.name),
        Ev::Timeout => "timeout".into(),
    }
}

fn patch<A: Serialize, B: DeserializeOwned>(a: &A, f: impl FnOnce(&mut Value)) -> B {
    let mut v = serde_json::to_value(a).expect("ser");
    f(&mut v);
    serde_json::from_value(v).expect("mirror")
}

/// justifications addressed to the complaint of verifier i
pub fn justs<X: Sch>(w: &World<X>, i: usize, full: bool) -> Vec<JK<X>> {
    let kinds = deal_kinds(w, i);
    let mut out = vec![];
    for k in &kinds {
        let keep = k.name == "good" || k.name == "share+1" || full;
        if !keep {
            continue;
        }
        out.push(JK { name: format!("{i}:{}", k.name), i: i as u32, j: w.just_as(i, Some(&k.m), false), sid: w.sid.clone(), signed: true, d: k.clone() });
    }
    if full {
        // the deal of another verifier
        let o = (i + 1) % w.n;
        let mut ko = deal_kinds(w, o)[0].clone();
        ko.name = "deal-of-other".into();
        out.push(JK { name: format!("{i}:deal-of-other"), i: i as u32, j: w.just_as(i, Some(&ko.m), false), sid: w.sid.clone(), signed: true, d: ko });
        // out of range share index
        let mut kx = kinds[0].clone();
        kx.m.sec_share.i = w.n;
        if let Some(r) = kx.m.rnd_share.as_mut() {
            r.i = w.n
        }
        kx.content = false;
        out.push(JK { name: format!("{i}:deal-index=n"), i: i as u32, j: w.just_as(i, Some(&kx.m), false), sid: w.sid.clone(), signed: true, d: kx });
        // second sharing, entirely
        let k2 = kinds.iter().find(|k| k.name == "second").unwrap();
        out.push(JK { name: format!("{i}:session2"), i: i as u32, j: w.just_as(i, None, true), sid: w.sid2.clone(), signed: true, d: k2.clone() });
        // forged signature
        for nm in ["good", "share+1"] {
            let k = kinds.iter().find(|k| k.name == nm).unwrap();
            let j: X::J = patch(&w.just_as(i, Some(&k.m), false), |v| {
                let s: Vec<u8> = serde_json::from_value(v["signature"].clone()).unwrap();
                let mut s2 = s.clone();
                s2[8] ^= 1;
                v["signature"] = json!(s2);
            });
            out.push(JK { name: format!("{i}:forged-{nm}"), i: i as u32, j, sid: w.sid.clone(), signed: false, d: k.clone() });
        }
        // wrong declared session / index (also break the signature)
        let j: X::J = patch(&w.just_as(i, None, false), |v| v["session_id"] = json!(w.sid2));
        out.push(JK { name: format!("{i}:jsid"), i: i as u32, j, sid: w.sid2.clone(), signed: false, d: kinds[0].clone() });
        for ix in [w.n as u32, u32::MAX] {
            let j: X::J = patch(&w.just_as(i, None, false), |v| v["index"] = json!(ix));
            out.push(JK { name: format!("{i}:index={ix}"), i: ix, j, sid: w.sid.clone(), signed: false, d: kinds[0].clone() });
        }
    }
    out
}

/// responses that must always be refused
pub fn bad_resps<X: Sch>(w: &World<X>) -> Vec<(String, X::R)> {
    let mut out = vec![];
    seed_rng("badresp");
    let n = w.n;
    let g = X::resp_signed(&w.sid, 1, true, &w.longs[1]);
    let (sid, ix, ok, sig) = X::rparts(&g);
    let mut s2 = sig.clone();
    s2[9] ^= 1;
    out.push(("sig-bit".into(), X::resp(&sid, ix, ok, s2)));
    out.push(("sig-empty".into(), X::resp(&sid, ix, ok, vec![])));
    out.push(("sig-short".into(), X::resp(&sid, ix, ok, sig[..sig.len() - 1].to_vec())));
    out.push(("status-flipped".into(), X::resp(&sid, ix, !ok, sig.clone())));
    out.push(("index-moved".into(), X::resp(&sid, (ix + 1) % n as u32, ok, sig.clone())));
    out.push(("other-signer".into(), X::resp_signed(&w.sid, 1, true, &w.dlong)));
    out.push(("other-verifier-signer".into(), X::resp_signed(&w.sid, 1, false, &w.longs[0])));
    for bad in [n as u32, n as u32 + 1, u32::MAX] {
        out.push((format!("index={bad}"), X::resp_signed(&w.sid, bad, true, &w.longs[1])));
    }
    out
}

// ------------------------------------------------------------------------------------------------
// reference: what a verifier must conclude, from the specification alone

#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize)]
pub struct Mst {
    /// index into kinds of the held deal; -1 none; otherwise Deal id
    pub own: Option<String>,
    pub own_ok_deal: Option<String>,
    pub resp: Vec<Option<(bool, Vec<u8>)>>,
    pub bad: bool,
    pub timeout: bool,
}

pub struct Model<'a, X: Sch> {
    pub w: &'a World<X>,
    pub me: usize,
    pub tset: usize,
    pub deals: HashMap<String, DK<X>>,
    /// session computed from the content, for deals that declare another one
    pub csid: HashMap<String, Vec<u8>>,
}

pub enum Exp {
    Resp(bool),
    Ok,
    Err,
}

fn valid_t(t: usize, n: usize) -> bool {
    t >= 2 && t <= n
}

impl<'a, X: Sch> Model<'a, X> {
    pub fn init(&self) -> Mst {
        Mst { own: None, own_ok_deal: None, resp: vec![None; self.w.n], bad: false, timeout: false }
    }
    fn dk(&self, s: &Mst) -> Option<&DK<X>> {
        s.own.as_ref().map(|n| &self.deals[n])
    }
    fn session(&self, k: &DK<X>) -> Vec<u8> {
        if k.sid_ok {
            k.m.session_id.clone()
        } else {
            self.csid[&k.name].clone()
        }
    }
    pub fn threshold(&self, s: &Mst) -> usize {
        if self.tset != 0 {
            return self.tset;
        }
        self.dk(s).map(|d| d.m.t).unwrap_or(0)
    }
    pub fn step(&self, s: &mut Mst, e: &Ev<X>) -> Exp {
        let n = self.w.n;
        match e {
            Ev::DealErr(..) | Ev::RespErr(..) => Exp::Err,
            Ev::Deal(k, _) => {
                if s.own.is_some() {
                    return Exp::Err;
                }
                let ok = k.content && k.sid_ok && (self.tset == 0 || self.tset == k.m.t);
                s.own = Some(k.name.clone());
                if ok {
                    s.own_ok_deal = Some(k.name.clone());
                }
                // the session is that of the content, whatever the deal declares
                let sid = self.session(k);
                for r in s.resp.iter_mut() {
                    if matches!(r, Some((_, s)) if *s != sid) {
                        *r = None;
                    }
                }
                s.resp[self.me] = Some((ok, sid));
                Exp::Resp(ok)
            }
            Ev::Resp { i, ok, sid, .. } => {
                match self.dk(s) {
                    Some(k) => {
                        if self.session(k) != *sid {
                            return Exp::Err;
                        }
                    }
                    None if X::RABIN => return Exp::Err,
                    None => (),
                }
                if s.resp[*i].is_some() {
                    return Exp::Err;
                }
                s.resp[*i] = Some((*ok, sid.clone()));
                Exp::Ok
            }
            Ev::Just(j) => {
                let i = j.i as usize;
                if i >= n || (X::RABIN && s.own.is_none()) {
                    return Exp::Err;
                }
                let rsid = match &s.resp[i] {
                    Some((false, sid)) => sid.clone(),
                    _ => return Exp::Err,
                };
                if j.sid != rsid || !j.signed {
                    return Exp::Err;
                }
                let good = self.just_good(s, j, &rsid);
                if !good {
                    s.bad = true;
                    return Exp::Err;
                }
                s.resp[i] = Some((true, rsid));
                if i == self.me {
                    s.own_ok_deal = Some(j.d.name.clone());
                }
                Exp::Ok
            }
            Ev::Timeout => {
                if X::RABIN {
                    if let Some(k) = self.dk(s) {
                        let sid = self.session(k);
                        for r in s.resp.iter_mut() {
                            if r.is_none() {
                                *r = Some((false, sid.clone()));
                            }
                        }
                    }
                } else {
                    s.timeout = true;
                }
                Exp::Ok
            }
        }
    }
    /// does this justification reveal the deal the complaint (of session rsid) is about?
    pub fn just_good(&self, s: &Mst, j: &JK<X>, rsid: &[u8]) -> bool {
        let mut good = j.d.content && j.d.sid_ok && j.d.m.session_id == rsid && j.d.m.sec_share.i == j.i as usize;
        if self.tset != 0 && self.tset != j.d.m.t {
            good = false;
        }
        if let Some(k) = self.dk(s) {
            if (self.tset == 0 && k.m.t != j.d.m.t) || self.session(k) != j.d.m.session_id || k.m.commitments != j.d.m.commitments {
                good = false;
            }
        }
        good
    }
    pub fn certified(&self, s: &Mst) -> bool {
        let n = self.w.n;
        let t = self.threshold(s);
        if s.bad || !valid_t(t, n) || (X::RABIN && s.own.is_none()) {
            return false;
        }
        let ok = s.resp.iter().filter(|r| matches!(r, Some((true, _)))).count();
        let compl = s.resp.iter().filter(|r| matches!(r, Some((false, _)))).count();
        let absent = n - ok - compl;
        if ok < t {
            return false;
        }
        if X::RABIN {
            absent == 0 && compl < t
        } else {
            compl == 0 && (absent == 0 || (s.timeout && absent <= n - t))
        }
    }
    pub fn released(&self, s: &Mst) -> Option<&DK<X>> {
        if !self.certified(s) || s.own.is_none() || !matches!(s.resp[self.me], Some((true, _))) {
            return None;
        }
        s.own_ok_deal.as_ref().map(|n| &self.deals[n])
    }
}

pub fn apply_real<X: Sch>(v: &mut X::V, e: &Ev<X>, label: &str) -> Result<(Option<(Vec<u8>, u32, bool)>, bool), String> {
    seed_rng(label);
    let r = guard(|| match e {
        Ev::Deal(_, ed) | Ev::DealErr(_, ed) => X::v_deal(v, ed).map(|r| {
            let (a, b, c, _) = X::rparts(&r);
            Some((a, b, c))
        }),
        Ev::Resp { r, .. } | Ev::RespErr(_, r) => X::v_resp(v, r).map(|_| None),
        Ev::Just(j) => X::v_just(v, &j.j).map(|_| None),
        Ev::Timeout => {
            X::v_timeout(v);
            Ok(None)
        }
    })?;
    Ok(match r {
        Ok(o) => (o, true),
        Err(_) => (None, false),
    })
}

/// compares everything observable of the real verifier with the model
fn compare<X: Sch>(ctx: &Ctx, md: &Model<X>, s: &Mst, v: &X::V, case: &dyn Fn() -> Value) -> bool {
    let mut same = true;
    let mut fail = |k: &str, w: String| {
        same = false;
        ctx.fail(k, w, case());
    };
    let want = md.certified(s);
    match guard(|| X::v_certified(v)) {
        Err(p) => fail("panic-certified", p),
        Ok(got) => {
            if got != want {
                fail(if want { "not-certified" } else { "wrongly-certified" }, format!("deal_certified() = {got}, must be {want}; {s:?}"));
            }
            ctx.outcome(if got { "certified" } else { "uncertified" });
        }
    }
    match guard(|| X::v_deal_out(v)) {
        Err(p) => fail("panic-deal", p),
        Ok(got) => {
            let want = md.released(s).map(|k| k.m.clone());
            if got != want {
                fail("released-deal", format!("deal() released {}, must be {}", desc(&got), desc(&want)));
            }
        }
    }
    if let Ok(Some(m)) = guard(|| X::v_missing(v)) {
        let want: Vec<usize> = (0..md.w.n).filter(|i| s.resp[*i].is_none()).collect();
        if m != want {
            fail("missing-responses", format!("missing_responses() = {m:?}, must be {want:?}"));
        }
    }
    same
}
fn desc<S: std::fmt::Debug, P: std::fmt::Debug>(m: &Option<MDeal<S, P>>) -> String {
    match m {
        None => "nothing".into(),
        Some(d) => format!("deal(i={}, v={:?}, t={}, {} commitments)", d.sec_share.i, d.sec_share.v, d.t, d.commitments.len()),
    }
}

pub struct Cfg {
    pub n: usize,
    pub t: usize,
    pub tset: usize,
    /// deal kind delivered (besides a genuine one)
    pub kind: String,
    pub full: bool,
}

pub fn alphabet<X: Sch>(w: &World<X>, me: usize, kind: &str, full: bool) -> (Vec<Ev<X>>, HashMap<String, DK<X>>) {
    let mut deals = HashMap::new();
    let mut ev: Vec<Ev<X>> = vec![];
    let kinds = deal_kinds(w, me);
    for k in &kinds {
        deals.insert(k.name.clone(), k.clone());
        if k.name == kind || k.name == "good" {
            ev.push(Ev::Deal(k.clone(), w.enc_as(me, &k.m)));
        }
    }
    let o = (me + 1) % w.n;
    if full {
        // deals that must be refused: for someone else, wrong index inside, tampered
        let mut d1 = w.dealer.clone();
        let mo = X::plain(&mut d1, o).unwrap();
        seed_rng("o");
        ev.push(Ev::DealErr("for-other".into(), X::enc(&w.dealer, o).unwrap()));
        ev.push(Ev::DealErr("index-of-other".into(), w.enc_as(me, &mo)));
        let mut mx = X::plain(&mut d1, me).unwrap();
        mx.sec_share.i = w.n;
        ev.push(Ev::DealErr("index=n".into(), w.enc_as(me, &mx)));
        let g = w.enc_as(me, &X::plain(&mut d1, me).unwrap());
        let e: X::ED = patch(&g, |v| {
            let mut s: Vec<u8> = serde_json::from_value(v["cipher"].clone()).unwrap();
            s[3] ^= 1;
            v["cipher"] = json!(s);
        });
        ev.push(Ev::DealErr("cipher-bit".into(), e));
    }
    for i in 0..w.n {
        if i == me {
            continue;
        }
        for ok in [true, false] {
            seed_rng(&format!("r{i}{ok}"));
            ev.push(Ev::Resp { i, ok, sid: w.sid.clone(), r: X::resp_signed(&w.sid, i as u32, ok, &w.longs[i]) });
            if full && (i == o || kind.contains("second")) {
                seed_rng(&format!("r2{i}{ok}"));
                ev.push(Ev::Resp { i, ok, sid: w.sid2.clone(), r: X::resp_signed(&w.sid2, i as u32, ok, &w.longs[i]) });
            }
        }
    }
    if full {
        for (n, r) in bad_resps(w) {
            ev.push(Ev::RespErr(n, r));
        }
    }
    for i in 0..w.n {
        for j in justs(w, i, full && (i == me || i == o)) {
            deals.entry(j.d.name.clone()).or_insert(j.d.clone());
            ev.push(Ev::Just(j));
        }
    }
    ev.push(Ev::Timeout);
    (ev, deals)
}

/// the event with its message serialised and read back
fn resent<X: Sch>(ctx: &Ctx, w: &World<X>, e: &Ev<X>) -> Ev<X> {
    use crate::p_save::round;
    let case = || json!({"scheme": X::NAME, "message": ev_name(w, e)});
    let mut f = e.clone();
    match &mut f {
        Ev::Deal(_, d) => {
            *d = round(ctx, "deal", d, &case).unwrap_or(d.clone());
        }
        Ev::DealErr(_, d) => *d = round(ctx, "deal", d, &case).unwrap_or(d.clone()),
        Ev::Resp { r, .. } | Ev::RespErr(_, r) => *r = round(ctx, "response", r, &case).unwrap_or(r.clone()),
        Ev::Just(j) => j.j = round(ctx, "justification", &j.j, &case).unwrap_or(j.j.clone()),
        Ev::Timeout => {}
    }
    f
}

pub fn explore<X: Sch>(ctx: &Ctx, cfg: &Cfg, paths_out: &mut Vec<Vec<String>>, keep: usize) {
    let w = World::<X>::new(cfg.n, cfg.t);
    let me = 0;
    let (ev, deals) = alphabet::<X>(&w, me, &cfg.kind, cfg.full);
    let csid = deals.iter().filter(|(_, k)| !k.sid_ok).map(|(n, k)| (n.clone(), w.consistent_sid(&k.m).unwrap_or_default())).collect();
    let md = Model { w: &w, me, tset: cfg.tset, deals, csid };
    let mut v0 = w.verifier(me);
    if cfg.tset != 0 {
        X::v_set_t(&mut v0, cfg.tset);
    }
    let case0 = |path: &[usize], last: Option<usize>| {
        let mut p: Vec<String> = path.iter().map(|i| ev_name(&w, &ev[*i])).collect();
        if let Some(l) = last {
            p.push(ev_name(&w, &ev[l]));
        }
        json!({"scheme": X::NAME, "n": cfg.n, "t": cfg.t, "set_threshold": cfg.tset, "events": p})
    };
    compare(ctx, &md, &md.init(), &v0, &|| case0(&[], None));
    let twins = crate::p_save::Twins::new(X::NAME);
    let ev2: Vec<Ev<X>> = if ctx.restoring() { ev.iter().map(|e| resent(ctx, &w, e)).collect() } else { vec![] };
    let obs = |v: &X::V| format!("{:?}", guard(|| (X::v_certified(v), X::v_deal_out(v), X::v_missing(v))));
    let mut seenp = 0usize;
    let (ns, nt, complete) = bfs(
        vec![(v0, md.init())],
        3_000_000,
        |s: &(X::V, Mst)| (canon(&s.0), s.1.clone()),
        |_s, path: &[usize]| {
            if path.len() >= 3 {
                seenp += 1;
            }
            if keep > 0 && path.len() >= 3 && seenp % keep == 1 {
                paths_out.push(path.iter().map(|i| ev_name(&w, &ev[*i])).collect());
            }
        },
        |s, path| {
            let mut out = vec![];
            for (ei, e) in ev.iter().enumerate() {
                let mut v = s.0.clone();
                let mut m = s.1.clone();
                let case = || case0(path, Some(ei));
                let got = apply_real::<X>(&mut v, e, &format!("ev{ei}"));
                twins.step(ctx, path, ei, &s.0, &v, &got, &|g: &mut X::V| apply_real::<X>(g, &ev2[ei], &format!("ev{ei}")), &obs, &case);
                let want = md.step(&mut m, e);
                let got = match got {
                    Err(p) => {
                        ctx.fail(&format!("panic-{}", ev_cat(e)), format!("panic: {p}"), case());
                        continue;
                    }
                    Ok(g) => g,
                };
                let mut same = judge::<X>(ctx, e, &want, &got, &w, me, &case);
                let forged_flag = matches!(e, Ev::Just(j) if !j.signed);
                if forged_flag {
                    // leaf: a forged justification must leave the verifier's behaviour unchanged
                    if canon(&v) != canon(&s.0) {
                        let c0 = guard(|| X::v_certified(&s.0)).unwrap_or(false);
                        // anything it would conclude in the future differs: flagged dealers never certify again
                        if let Ev::Just(j) = e {
                            let rsid = s.1.resp.get(j.i as usize).cloned().flatten().map(|r| r.1).unwrap_or_default();
                            let cls = if j.sid == rsid && md.just_good(&s.1, j, &rsid) { "good" } else { "bad" };
                            ctx.fail(&format!("forged-{cls}-justification-changes-state"), format!("a justification not signed by the dealer changed the verifier's verdict (certified before: {c0})"), case());
                        }
                    }
                    continue;
                }
                same &= compare(ctx, &md, &m, &v, &case);
                if !same {
                    continue; // the reference and the code have parted already
                }
                out.push((ei, (v, m)));
            }
            out
        },
    );
    ctx.st(ns);
    ctx.tr(nt);
    if !complete {
        ctx.bound(format!("{} n={} t={} kind={}: state cap reached", X::NAME, cfg.n, cfg.t, cfg.kind));
        ctx.extra("truncated", json!(true));
    }
}

fn ev_cat<X: Sch>(e: &Ev<X>) -> &'static str {
    match e {
        Ev::Deal(..) | Ev::DealErr(..) => "deal",
        Ev::Resp { .. } | Ev::RespErr(..) => "response",
        Ev::Just(_) => "justification",
        Ev::Timeout => "timeout",
    }
}

fn judge<X: Sch>(ctx: &Ctx, e: &Ev<X>, want: &Exp, got: &(Option<(Vec<u8>, u32, bool)>, bool), w: &World<X>, me: usize, case: &dyn Fn() -> Value) -> bool {
    let mut same = true;
    let mut fail = |k: &str, w: String| {
        same = false;
        ctx.fail(k, w, case());
    };
    let cat = ev_cat(e);
    match want {
        Exp::Err => {
            if got.1 {
                fail(&format!("accepted-{cat}"), format!("{} must be refused", ev_name(w, e)));
            }
        }
        Exp::Ok => {
            if !got.1 {
                fail(&format!("refused-{cat}"), format!("{} must be accepted", ev_name(w, e)));
            }
        }
        Exp::Resp(ok) => match &got.0 {
            None => fail("refused-deal", format!("{} must be answered with a response", ev_name(w, e))),
            Some((sid, idx, st)) => {
                if st != ok {
                    fail(if *ok { "complaint-about-good-deal" } else { "approved-bad-deal" }, format!("{} answered with status {st}, must be {ok}", ev_name(w, e)));
                }
                if *idx as usize != me {
                    fail("response-index", format!("response carries index {idx}"));
                }
                if let Ev::Deal(k, _) = e {
                    if k.sid_ok && *sid != k.m.session_id {
                        fail("response-session", "response to a consistent deal does not carry its session".into());
                    }
                }
            }
        },
    }
    same
}

/// the same history on the other suite: verdict by verdict
fn replay<X: Sch, Y: Sch>(ctx: &Ctx, cfg: &Cfg, paths: &[Vec<String>]) {
    let wx = World::<X>::new(cfg.n, cfg.t);
    let wy = World::<Y>::new(cfg.n, cfg.t);
    let (ex, _) = alphabet::<X>(&wx, 0, &cfg.kind, cfg.full);
    let (ey, _) = alphabet::<Y>(&wy, 0, &cfg.kind, cfg.full);
    let nx: HashMap<String, usize> = ex.iter().enumerate().map(|(i, e)| (ev_name(&wx, e), i)).collect();
    let ny: HashMap<String, usize> = ey.iter().enumerate().map(|(i, e)| (ev_name(&wy, e), i)).collect();
    for p in paths {
        let (mut vx, mut vy) = (wx.verifier(0), wy.verifier(0));
        if cfg.tset != 0 {
            X::v_set_t(&mut vx, cfg.tset);
            Y::v_set_t(&mut vy, cfg.tset);
        }
        let mut same = true;
        for (k, e) in p.iter().enumerate() {
            let (Some(a), Some(b)) = (nx.get(e), ny.get(e)) else {
                same = false;
                break;
            };
            let ra = apply_real::<X>(&mut vx, &ex[*a], "x").map(|r| (r.0.map(|x| (x.1, x.2)), r.1)).ok();
            let rb = apply_real::<Y>(&mut vy, &ey[*b], "y").map(|r| (r.0.map(|x| (x.1, x.2)), r.1)).ok();
            let ca = guard(|| X::v_certified(&vx)).ok();
            let cb = guard(|| Y::v_certified(&vy)).ok();
            if ra != rb || ca != cb {
                ctx.fail("suites-disagree", format!("step {k} ({e}): {ra:?}/{ca:?} on {} but {rb:?}/{cb:?} on {}", X::NAME, Y::NAME), json!({"events": p, "n": cfg.n, "t": cfg.t, "set_threshold": cfg.tset}));
                same = false;
                break;
            }
        }
        if same {
            ctx.trace(1);
        }
    }
}

// ------------------------------------------------------------------------------------------------
// the dealer as observed node

pub fn explore_dealer<X: Sch>(ctx: &Ctx, n: usize, t: usize) {
    let w = World::<X>::new(n, t);
    #[derive(Clone, PartialEq, Eq, Hash, Debug)]
    struct M {
        resp: Vec<Option<bool>>,
        timeout: bool,
    }
    enum E<X: Sch> {
        R(usize, bool, X::R),
        Bad(String, X::R),
        T,
    }
    let mut ev: Vec<E<X>> = vec![];
    for i in 0..n {
        for ok in [true, false] {
            seed_rng("dr");
            ev.push(E::R(i, ok, X::resp_signed(&w.sid, i as u32, ok, &w.longs[i])));
        }
    }
    for (nm, r) in bad_resps(&w) {
        ev.push(E::Bad(nm, r));
    }
    seed_rng("dr2");
    ev.push(E::Bad("session2".into(), X::resp_signed(&w.sid2, 0, false, &w.longs[0])));
    ev.push(E::T);
    let name = |e: &E<X>| match e {
        E::R(i, ok, _) => format!("resp[{i},{ok}]"),
        E::Bad(s, _) => format!("badresp[{s}]"),
        E::T => "timeout".to_string(),
    };
    let want_cert = |m: &M| {
        let ok = m.resp.iter().filter(|r| **r == Some(true)).count();
        let c = m.resp.iter().filter(|r| **r == Some(false)).count();
        let absent = n - ok - c;
        if ok < t {
            return false;
        }
        if X::RABIN {
            absent == 0 && c < t
        } else {
            c == 0 && (absent == 0 || (m.timeout && absent <= n - t))
        }
    };
    let sp = X::pt(&w.secret);
    let kinds: Vec<MD<X>> = (0..n).map(|i| X::plain(&mut w.dealer.clone(), i).unwrap()).collect();
    let twins = crate::p_save::Twins::new(X::NAME);
    let obs = |d: &X::D| {
        let shares: Vec<_> = (0..n).map(|i| X::plain(&mut d.clone(), i)).collect();
        seed_rng("enc");
        let enc: Vec<_> = (0..n).map(|i| guard(|| X::enc(d, i).map(|e| twins.fp(&e)))).collect();
        format!("{:?}", (guard(|| (X::d_certified(d), X::d_secret_commit(d))), shares, enc))
    };
    let (ns, nt, _) = bfs(
        vec![(w.dealer.clone(), M { resp: vec![None; n], timeout: false })],
        1_000_000,
        |s: &(X::D, M)| (canon(&s.0), s.1.clone()),
        |_, _: &[usize]| {},
        |s, path| {
            let mut out = vec![];
            for (ei, e) in ev.iter().enumerate() {
                let case = || {
                    let mut p: Vec<String> = path.iter().map(|i| name(&ev[*i])).collect();
                    p.push(name(e));
                    json!({"scheme": X::NAME, "observed": "dealer", "n": n, "t": t, "events": p})
                };
                let (mut d, mut m) = (s.0.clone(), s.1.clone());
                let act = |d: &mut X::D| {
                    seed_rng("dealer-step");
                    guard(|| match e {
                        E::R(_, _, r) | E::Bad(_, r) => X::d_resp(d, r),
                        E::T => {
                            X::d_timeout(d);
                            Ok(None)
                        }
                    })
                };
                let r = act(&mut d);
                if ctx.restoring() {
                    let short = |r: &Result<Result<Option<X::J>, String>, String>| r.clone().map(|x| x.map(|j| j.map(|j| twins.fp(&j))));
                    if let Ok(Ok(Some(j))) = &r {
                        crate::p_save::round(ctx, "justification", j, &case);
                    }
                    twins.step(ctx, path, ei, &s.0, &d, &short(&r), &|d: &mut X::D| short(&act(d)), &obs, &case);
                }
                let r = match r {
                    Err(p) => {
                        ctx.fail("panic-dealer", p, case());
                        continue;
                    }
                    Ok(r) => r,
                };
                match e {
                    E::Bad(nm, _) => {
                        if r.is_ok() {
                            ctx.fail("dealer-accepted-bad-response", format!("{nm} accepted by the dealer"), case());
                        }
                    }
                    E::R(i, ok, _) => {
                        let dup = m.resp[*i].is_some();
                        match (&r, dup) {
                            (Ok(_), true) => ctx.fail("dealer-accepted-duplicate", "second response of one verifier accepted", case()),
                            (Err(x), false) => ctx.fail("dealer-refused-response", format!("genuine response refused: {x}"), case()),
                            (Ok(None), false) if !*ok => ctx.fail("no-justification", "complaint not answered", case()),
                            (Ok(Some(_)), false) if *ok => ctx.fail("justification-for-approval", "approval answered with a justification", case()),
                            (Ok(Some(j)), false) => {
                                // a verifier holding that complaint must accept it, and the deal inside is the dealt one
                                let md: Value = serde_json::to_value(j).unwrap();
                                let dl: MD<X> = serde_json::from_value(md["deal"].clone()).unwrap();
                                if dl != kinds[*i] {
                                    ctx.fail("justification-content", "justification does not reveal the dealt share", case());
                                }
                                let vi = (*i + 1) % n;
                                let mut v = w.verifier(vi);
                                seed_rng("dj");
                                let ok = guard(|| {
                                    X::v_deal(&mut v, &X::enc(&w.dealer, vi).unwrap()).is_ok()
                                        && X::v_resp(&mut v, &X::resp_signed(&w.sid, *i as u32, false, &w.longs[*i])).is_ok()
                                        && X::v_just(&mut v, j).is_ok()
                                });
                                if ok != Ok(true) {
                                    ctx.fail("justification-refused", "an honest dealer's justification is refused by an honest verifier", case());
                                }
                            }
                            _ => (),
                        }
                        if !dup {
                            // a complaint the dealer has answered with the true share counts as justified
                            m.resp[*i] = Some(true);
                        }
                    }
                    E::T => {
                        if X::RABIN {
                            for r in m.resp.iter_mut() {
                                if r.is_none() {
                                    *r = Some(false);
                                }
                            }
                        } else {
                            m.timeout = true;
                        }
                    }
                }
                let want = want_cert(&m);
                if let Ok(got) = guard(|| X::d_certified(&d)) {
                    ctx.check(got == want, "dealer-certified", "the dealer's certification verdict", case);
                } else {
                    ctx.fail("panic-dealer-certified", "panic", case());
                }
                if let Ok(got) = guard(|| X::d_secret_commit(&d)) {
                    ctx.check(got == if want { Some(sp.clone()) } else { None }, "dealer-secret-commit", "secret_commit() must be s*G exactly when certified", case);
                }
                out.push((ei, (d, m)));
            }
            out
        },
    );
    ctx.st(ns);
    ctx.tr(nt);
}

/// threshold validity at dealing time and completeness: any t certified shares give the secret
fn dealing<X: Sch>(ctx: &Ctx, nmax: usize) {
    for n in 1..=nmax {
        let longs: Vec<X::S> = (0..n).map(|i| X::sc(100 + i as i64)).collect();
        let pubs: Vec<X::P> = longs.iter().map(|l| X::pt(l)).collect();
        let dl = X::sc(55);
        for t in (0..=n + 2).chain([usize::MAX, 1 << 32, (1 << 32) + 2]) {
            let case = || json!({"scheme": X::NAME, "n": n, "t": t});
            seed_rng("dealing");
            let r = guard(|| X::dealer(&dl, &X::sc(9), &pubs, t));
            let valid = valid_t(t, n);
            ctx.tr(1);
            match r {
                Err(p) => ctx.fail("panic-new-dealer", p, case()),
                Ok(Err(_)) => {
                    ctx.check(!valid, "dealer-refused", "a valid threshold is refused", case);
                }
                Ok(Ok(mut d)) => {
                    ctx.check(valid, "dealer-bad-threshold", "an invalid threshold is accepted", case);
                    if !valid {
                        continue;
                    }
                    // commitments are of degree t-1, shares lie on them, recover from every subset
                    let deals: Vec<MD<X>> = (0..n).map(|i| X::plain(&mut d, i).unwrap()).collect();
                    for (i, m) in deals.iter().enumerate() {
                        ctx.check(m.sec_share.i == i && m.t == t && m.commitments.len() == t && m.session_id == X::d_sid(&d), "deal-shape", "the deal of each verifier carries its index, t commitments and the session", case);
                    }
                    for k in 1..=n {
                        for sub in subsets(n, k) {
                            ctx.st(1);
                            let ds: Vec<MD<X>> = sub.iter().map(|i| deals[*i].clone()).collect();
                            let r = guard(|| X::recover(&ds, n, t));
                            match r {
                                Err(p) => ctx.fail("panic-recover", p, case()),
                                Ok(r) => {
                                    ctx.check(if k >= t { r.as_ref().ok() == Some(&X::sc(9)) } else { r.is_err() }, "recover-secret", "any t deals, and no fewer, give the secret", || json!({"scheme": X::NAME, "n": n, "t": t, "subset": sub}));
                                }
                            }
                        }
                    }
                    if t <= n && n >= 2 {
                        let mut ds = deals.clone();
                        ds[0].session_id[0] ^= 1;
                        ctx.check(matches!(guard(|| X::recover(&ds, n, t)), Ok(Err(_))), "recover-mixed-sessions", "deals of different sessions are refused", case);
                    }
                }
            }
        }
    }
}

fn run<X: Sch, Y: Sch>(ctx: &Ctx) -> i32 {
    let mut cfgs: Vec<Cfg> = vec![];
    let names: Vec<String> = deal_kinds(&World::<X>::new(3, 2), 0).into_iter().map(|k| k.name).collect();
    let names4: Vec<String> = deal_kinds(&World::<X>::new(4, 3), 0).into_iter().map(|k| k.name).collect();
    let tsets = |n: usize, t: usize| -> Vec<usize> {
        if X::RABIN {
            vec![0]
        } else if t < n {
            vec![0, t, t + 1]
        } else {
            vec![0, t]
        }
    };
    for k in &names {
        for ts in tsets(3, 2) {
            cfgs.push(Cfg { n: 3, t: 2, tset: ts, kind: k.clone(), full: true });
        }
    }
    for k in ["good", "share+1", "second", "second/declared-first"] {
        for ts in tsets(3, 3) {
            cfgs.push(Cfg { n: 3, t: 3, tset: ts, kind: k.into(), full: true });
        }
        cfgs.push(Cfg { n: 2, t: 2, tset: 0, kind: k.into(), full: true });
    }
    for (n, t) in [(4, 2), (4, 3)] {
        for k in ["good", "share+1"] {
            for ts in if X::RABIN { vec![0] } else { vec![0, t] } {
                cfgs.push(Cfg { n, t, tset: ts, kind: k.into(), full: false });
            }
        }
    }
    if ctx.thorough() {
        for k in &names4 {
            for t in [2, 3, 4] {
                for ts in if X::RABIN { vec![0] } else { vec![0, t] } {
                    cfgs.push(Cfg { n: 4, t, tset: ts, kind: k.clone(), full: true });
                }
            }
        }
        for k in ["good", "share+1"] {
            cfgs.push(Cfg { n: 5, t: 3, tset: 0, kind: k.into(), full: false });
        }
    }
    let keep = ctx.pick(53, 197);
    par_items(&cfgs, |c| {
        let mut paths = vec![];
        explore::<X>(ctx, c, &mut paths, keep);
        paths.truncate(12);
        if c.n == 3 {
            replay::<X, Y>(ctx, c, &paths);
        }
    });
    for (n, t) in ctx.pick(vec![(3, 2), (3, 3), (4, 2)], vec![(2, 2), (3, 2), (3, 3), (4, 2), (4, 3), (4, 4), (5, 3)]) {
        explore_dealer::<X>(ctx, n, t);
    }
    explore_dealer::<Y>(ctx, 2, 2);
    dealing::<X>(ctx, ctx.pick(5, 7));
    dealing::<Y>(ctx, 3);
    for (n, t) in ctx.pick(vec![(9, 5), (11, 2), (11, 11), (17, 9)], vec![(9, 5), (11, 2), (11, 6), (11, 11), (17, 9), (24, 13), (33, 17)]) {
        many::<X>(ctx, n, t, &if ctx.thorough() { (0..n).collect::<Vec<_>>() } else { vec![0, 1, n - 2, n - 1] });
    }
    for (n, t) in ctx.pick(vec![(3, 2)], vec![(2, 2), (3, 2), (4, 3), (5, 3)]) {
        crate::p_tamper::vss::<X>(ctx, n, t);
        crate::p_tamper::vss::<Y>(ctx, n, t);
    }
    many::<X>(ctx, 260, 3, &[1, 258]);
    many::<Y>(ctx, 11, 6, &[10]);
    ctx.bound("up to 260 verifiers: every prefix of schedules with silent and complaining verifiers in numbers around every limit, both directions, the deal before, between and after the answers, timeout before and after the justifications");
    ctx.bound(format!("verifier 0 observed; n=3,t=2: every one of {} kinds of deal x set_threshold; n=2..{} for selected kinds; message alphabet incl. forged/foreign/out-of-range, every order to closure", names.len(), ctx.pick(4, 5)));
    ctx.bound("dealer observed: every order of responses, forged responses and timeout to closure");
    0
}

pub fn c14(ctx: &Ctx) -> i32 {
    run::<PedToy, PedEd>(ctx)
}
pub fn c16(ctx: &Ctx) -> i32 {
    run::<RabToy, RabEd>(ctx)
}

// ------------------------------------------------------------------------------------------------
// many verifiers: every step of a family of complete schedules

/// One verifier of a large sharing, judged after every message: verifiers `silent` never answer, `complain` send a
/// complaint that the dealer answers (truthfully, or with a wrong share for the last of them).
fn many<X: Sch>(ctx: &Ctx, n: usize, t: usize, mes: &[usize]) {
    let w = World::<X>::new(n, t);
    par_items(mes, |me| {
        let me = *me;
        let mut d = w.dealer.clone();
        let plain: Vec<MD<X>> = (0..n).map(|i| X::plain(&mut d, i).unwrap()).collect();
        let good = DK { name: "good".into(), m: plain[me].clone(), content: true, sid_ok: true, poly: 0 };
        let mut m = plain[me].clone();
        m.sec_share.v = plus(&m.sec_share.v, X::sc(1));
        let wrong = DK { name: "share+1".into(), m, content: false, sid_ok: true, poly: 0 };
        let deals: HashMap<String, DK<X>> = [good.clone(), wrong.clone()].into_iter().map(|k| (k.name.clone(), k)).collect();
        let others: Vec<usize> = (1..n).map(|k| (me + k) % n).collect();
        let resp = |i: usize, ok: bool| {
            seed_rng(&format!("many{i}{ok}"));
            Ev::Resp { i, ok, sid: w.sid.clone(), r: X::resp_signed(&w.sid, i as u32, ok, &w.longs[i]) }
        };
        let yes: Vec<Ev<X>> = (0..n).map(|i| resp(i, true)).collect();
        let just = |i: usize, good: bool| {
            let mut m = plain[i].clone();
            if !good {
                m.sec_share.v = plus(&m.sec_share.v, X::sc(1));
            }
            let j = w.just_as(i, Some(&m), false);
            Ev::Just(JK { name: format!("{i}:{good}"), i: i as u32, j, sid: w.sid.clone(), signed: true, d: DK { name: if i == me && good { "good".into() } else { format!("{good} for {i}") }, m, content: good, sid_ok: true, poly: 0 } })
        };
        // (silent, complaining, last justification good)
        let mut cases: Vec<(usize, usize, bool)> = vec![(0, 0, true), (0, 1, true), (0, 1, false), (0, 2, true), (1, 1, true)];
        for k in [1, t.saturating_sub(1), t, t + 1] {
            cases.push((0, k, true));
            cases.push((k, 0, true));
            cases.push(((n - t).saturating_sub(k - 1), 0, true));
            cases.push(((n - t) + k - 1, 0, true));
        }
        cases.retain(|c| c.0 + c.1 < n && (n < 30 || c.1 <= 4));
        cases.sort();
        cases.dedup();
        for (silent, compl, jg) in cases {
            for back in [false, true] {
                let mut l = others.clone();
                if back {
                    l.reverse();
                }
                let speaking = &l[..l.len() - silent];
                let complaining = &speaking[speaking.len() - compl..];
                for own in ["good", "share+1"] {
                    for at in [0, speaking.len() / 2, speaking.len()] {
                        let mut evs: Vec<Ev<X>> = vec![];
                        let deal = || {
                            let k = if own == "good" { &good } else { &wrong };
                            Ev::Deal(k.clone(), w.enc_as(me, &k.m))
                        };
                        for (k, i) in speaking.iter().enumerate() {
                            if k == at {
                                evs.push(deal());
                            }
                            evs.push(if complaining.contains(i) { resp(*i, false) } else { yes[*i].clone() });
                        }
                        if at == speaking.len() {
                            evs.push(deal());
                            if X::RABIN {
                                // refused before the deal; sent again
                                for i in speaking {
                                    evs.push(if complaining.contains(i) { resp(*i, false) } else { yes[*i].clone() });
                                }
                            }
                        } else if X::RABIN && at > 0 {
                            for i in &speaking[..at] {
                                evs.push(if complaining.contains(i) { resp(*i, false) } else { yes[*i].clone() });
                            }
                        }
                        let js: Vec<Ev<X>> = complaining.iter().enumerate().map(|(k, i)| just(*i, jg || k + 1 < compl)).chain(if own == "good" { None } else { Some(just(me, true)) }).collect();
                        for late in [false, true] {
                            let mut p = evs.clone();
                            if late {
                                p.push(Ev::Timeout);
                                p.extend(js.iter().cloned());
                            } else {
                                p.extend(js.iter().cloned());
                                p.push(Ev::Timeout);
                            }
                            let csid = HashMap::new();
                            let md = Model { w: &w, me, tset: 0, deals: deals.clone(), csid };
                            let (mut v, mut s) = (w.verifier(me), md.init());
                            ctx.eval();
                            ctx.nontriv();
                            for (k, e) in p.iter().enumerate() {
                                let case = || json!({"scheme": X::NAME, "n": n, "t": t, "observed": me, "silent": silent, "complaints": compl, "own deal": own, "events": p[..=k].iter().map(|e| ev_name(&w, e)).collect::<Vec<_>>()});
                                let got = apply_real::<X>(&mut v, e, &format!("many{k}"));
                                let want = md.step(&mut s, e);
                                ctx.st(1);
                                ctx.tr(1);
                                match got {
                                    Err(x) => {
                                        ctx.fail(&format!("panic-{}", ev_cat(e)), format!("panic: {x}"), case());
                                        break;
                                    }
                                    Ok(g) => {
                                        let ok = judge::<X>(ctx, e, &want, &g, &w, me, &case) & compare(ctx, &md, &s, &v, &case);
                                        if !ok {
                                            break;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    // the dealer: certified with the last answer, or after the timeout with enough of them
    for silent in [0, 1, n - t, (n - t + 1).min(n)] {
        for back in [false, true] {
            let mut l: Vec<usize> = (0..n).collect();
            if back {
                l.reverse();
            }
            let mut d = w.dealer.clone();
            let speaking = &l[..n - silent];
            for (k, i) in speaking.iter().enumerate() {
                let case = || json!({"scheme": X::NAME, "n": n, "t": t, "answers": speaking[..=k]});
                seed_rng("manyd");
                // every fifth verifier complains; the dealer answers with the share it dealt
                let ok = i % 5 != 3;
                let r = guard(|| X::d_resp(&mut d, &X::resp_signed(&w.sid, *i as u32, ok, &w.longs[*i])));
                ctx.tr(1);
                match r {
                    Ok(Ok(j)) => {
                        ctx.check(j.is_some() != ok, "dealer-answer", "a complaint is answered with a justification, an approval is not", case);
                        if let Some(j) = j {
                            let md: Value = serde_json::to_value(&j).unwrap();
                            let dl: MD<X> = serde_json::from_value(md["deal"].clone()).unwrap();
                            ctx.check(dl == X::plain(&mut w.dealer.clone(), *i).unwrap(), "justification-content", "justification does not reveal the dealt share", case);
                        }
                    }
                    Ok(Err(e)) => ctx.fail("dealer-refused-response", e, case()),
                    Err(p) => ctx.fail("panic-dealer", p, case()),
                }
                ctx.check(guard(|| X::d_certified(&d)) == Ok(k + 1 == n), "dealer-certified", "the dealer's certification verdict", case);
            }
            X::d_timeout(&mut d);
            let want = if X::RABIN { n - silent >= t && silent < t } else { silent <= n - t };
            ctx.check(guard(|| X::d_certified(&d)) == Ok(want), "dealer-certified", "the dealer's certification verdict", || json!({"scheme": X::NAME, "n": n, "t": t, "silent": silent}));
        }
    }
}
