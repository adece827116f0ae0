//! C20: the two-phase (Rabin) key generation. One observed node is the real code; the other nodes are the
//! environment (their messages are produced by the real code too). Phase 1 (deals, responses,
//! justifications, timeout) is compared with a reference at every state; phase 2 (secret commitments,
//! complaints, reconstruction) is explored to closure under every order with repetition, and judged by the
//! true polynomials.
use crate::engine::*;
use crate::p_dkg::{eval_commits, horner, Dk, DkEd, DkToy};
use crate::p_vss::{canon, conv, MDeal, MShare};
use crate::toy::*;
use kyber_rs::group::edwards25519::SuiteEd25519;
use kyber_rs::share::dkg::rabin as rb;
use kyber_rs::share::vss::rabin::vss;
use kyber_rs::sign::schnorr;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Mutex;

pub type RS<X> = <<X as Rb>::K as Dk>::S;
pub type RP<X> = <<X as Rb>::K as Dk>::P;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MSc<P> {
    pub index: u32,
    pub commitments: Vec<P>,
    pub session_id: Vec<u8>,
    pub signature: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MCc<S, P> {
    pub index: u32,
    pub dealer_index: u32,
    pub deal: MDeal<S, P>,
    pub signature: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MRc<S> {
    pub session_id: Vec<u8>,
    pub index: u32,
    pub dealer_index: u32,
    pub share: MShare<S>,
    pub signature: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MRKey<S, P> {
    pub commits: Vec<P>,
    pub share: MShare<S>,
}
pub type Sc<X> = MSc<RP<X>>;
pub type Cc<X> = MCc<RS<X>, RP<X>>;
pub type Rc<X> = MRc<RS<X>>;
pub type RKey<X> = MRKey<RS<X>, RP<X>>;

pub trait Rb: Clone + Sync + Send + 'static {
    const NAME: &'static str;
    type K: Dk;
    type G: Clone + Serialize + DeserializeOwned + Send + Sync;
    type Deal: Clone + Serialize + DeserializeOwned + Send + Sync;
    type J: Clone + Serialize + DeserializeOwned + Send + Sync;
    fn new(long: &RS<Self>, parts: &[RP<Self>], t: usize) -> Result<Self::G, String>;
    fn deals(g: &mut Self::G) -> Result<HashMap<usize, Self::Deal>, String>;
    fn on_deal(g: &mut Self::G, d: &Self::Deal) -> Result<rb::Response, String>;
    fn on_resp(g: &mut Self::G, r: &rb::Response) -> Result<Option<Self::J>, String>;
    fn on_just(g: &mut Self::G, j: &Self::J) -> Result<(), String>;
    fn timeout(g: &mut Self::G);
    fn certified(g: &Self::G) -> bool;
    fn qual(g: &Self::G) -> Vec<usize>;
    fn is_in_qual(g: &Self::G, i: u32) -> bool;
    fn secret_commits(g: &mut Self::G) -> Result<Sc<Self>, String>;
    fn on_sc(g: &mut Self::G, m: &Sc<Self>) -> Result<Option<Cc<Self>>, String>;
    fn on_cc(g: &mut Self::G, m: &Cc<Self>) -> Result<Rc<Self>, String>;
    fn on_rc(g: &mut Self::G, m: &Rc<Self>) -> Result<(), String>;
    fn finished(g: &Self::G) -> bool;
    fn key(g: &Self::G) -> Result<RKey<Self>, String>;
    fn plain(g: &Self::G, i: usize) -> MDeal<RS<Self>, RP<Self>>;
    fn sid(g: &Self::G) -> Vec<u8>;
    fn craft_deal(g: &Self::G, from: u32, to: usize, m: &MDeal<RS<Self>, RP<Self>>) -> Self::Deal;
    fn patch_deal(d: &Self::Deal, f: &dyn Fn(&mut Value)) -> Self::Deal;
    /// justification of dealer g for complaint r, with another deal
    fn craft_just(g: &Self::G, r: &rb::Response, m: Option<&MDeal<RS<Self>, RP<Self>>>) -> Option<Self::J>;
    fn resp(d: u32, sid: &[u8], idx: u32, ok: bool, key: &RS<Self>) -> rb::Response;
    fn sign_sc(m: &Sc<Self>, key: &RS<Self>) -> Sc<Self>;
    fn sign_cc(m: &Cc<Self>, key: &RS<Self>) -> Cc<Self>;
    fn sign_rc(m: &Rc<Self>, key: &RS<Self>) -> Rc<Self>;
    fn save(g: &Self::G) -> Result<Vec<u8>, String>;
    fn load(b: &[u8]) -> Result<Self::G, String>;
    /// second-phase messages survive serialisation
    fn round_sc(ctx: &Ctx, m: &Sc<Self>);
    fn round_cc(ctx: &Ctx, m: &Cc<Self>);
    fn round_rc(ctx: &Ctx, m: &Rc<Self>);
}
fn e<T: std::fmt::Debug>(x: T) -> String {
    format!("{x:?}")
}
macro_rules! rbi {
    ($t:ident, $name:expr, $k:ty, $suite:ty, $mk:expr) => {
        #[derive(Clone)]
        pub struct $t;
        impl Rb for $t {
            const NAME: &'static str = $name;
            type K = $k;
            type G = rb::DistKeyGenerator<$suite>;
            type Deal = rb::Deal<RP<Self>>;
            type J = rb::Justification<$suite>;
            fn new(long: &RS<Self>, parts: &[RP<Self>], t: usize) -> Result<Self::G, String> {
                rb::new_dist_key_generator(&$mk, long, parts, t).map_err(e)
            }
            fn deals(g: &mut Self::G) -> Result<HashMap<usize, Self::Deal>, String> {
                g.deals().map_err(e)
            }
            fn on_deal(g: &mut Self::G, d: &Self::Deal) -> Result<rb::Response, String> {
                g.process_deal(d).map_err(e)
            }
            fn on_resp(g: &mut Self::G, r: &rb::Response) -> Result<Option<Self::J>, String> {
                g.process_response(r).map_err(e)
            }
            fn on_just(g: &mut Self::G, j: &Self::J) -> Result<(), String> {
                g.process_justification(j).map_err(e)
            }
            fn timeout(g: &mut Self::G) {
                g.set_timeout()
            }
            fn certified(g: &Self::G) -> bool {
                g.certified()
            }
            fn qual(g: &Self::G) -> Vec<usize> {
                let mut q = g.qual();
                q.sort();
                q
            }
            fn is_in_qual(g: &Self::G, i: u32) -> bool {
                g.is_in_qual(i)
            }
            fn secret_commits(g: &mut Self::G) -> Result<Sc<Self>, String> {
                g.secret_commits().map(|m| conv(&m)).map_err(e)
            }
            fn on_sc(g: &mut Self::G, m: &Sc<Self>) -> Result<Option<Cc<Self>>, String> {
                let m: rb::SecretCommits<$suite> = conv(m);
                g.process_secret_commits(&m).map(|c| c.map(|c| conv(&c))).map_err(e)
            }
            fn on_cc(g: &mut Self::G, m: &Cc<Self>) -> Result<Rc<Self>, String> {
                let m: rb::ComplaintCommits<$suite> = conv(m);
                g.process_complaint_commits(&m).map(|c| conv(&c)).map_err(e)
            }
            fn on_rc(g: &mut Self::G, m: &Rc<Self>) -> Result<(), String> {
                let m: rb::ReconstructCommits<$suite> = conv(m);
                g.process_reconstruct_commits(&m).map_err(e)
            }
            fn finished(g: &Self::G) -> bool {
                g.finished()
            }
            fn key(g: &Self::G) -> Result<RKey<Self>, String> {
                g.dist_key_share().map(|k| conv(&k)).map_err(e)
            }
            fn plain(g: &Self::G, i: usize) -> MDeal<RS<Self>, RP<Self>> {
                conv(g.dealer.clone().plaintext_deal(i).expect("plain"))
            }
            fn sid(g: &Self::G) -> Vec<u8> {
                g.dealer.session_id()
            }
            fn craft_deal(g: &Self::G, from: u32, to: usize, m: &MDeal<RS<Self>, RP<Self>>) -> Self::Deal {
                let mut d = g.dealer.clone();
                *d.plaintext_deal(to).expect("plain") = conv(m);
                rb::Deal { index: from, deal: d.encrypted_deal(to).expect("enc") }
            }
            fn patch_deal(d: &Self::Deal, f: &dyn Fn(&mut Value)) -> Self::Deal {
                let mut v = serde_json::to_value(d).expect("ser");
                f(&mut v);
                serde_json::from_value(v).expect("de")
            }
            fn craft_just(g: &Self::G, r: &rb::Response, m: Option<&MDeal<RS<Self>, RP<Self>>>) -> Option<Self::J> {
                let mut d = g.dealer.clone();
                if let Some(m) = m {
                    *d.plaintext_deal(r.response.index as usize).ok()? = conv(m);
                }
                let j = d.process_response(&r.response).ok()??;
                Some(rb::Justification { index: g.index, justification: j })
            }
            fn resp(d: u32, sid: &[u8], idx: u32, ok: bool, key: &RS<Self>) -> rb::Response {
                let mut r = vss::Response { session_id: sid.to_vec(), index: idx, approved: ok, signature: vec![] };
                r.signature = schnorr::sign(&$mk, key, &r.hash(&$mk).expect("hash")).expect("sign");
                rb::Response { index: d, response: r }
            }
            fn sign_sc(m: &Sc<Self>, key: &RS<Self>) -> Sc<Self> {
                let mut q: rb::SecretCommits<$suite> = conv(m);
                q.signature = schnorr::sign(&$mk, key, &q.hash(&$mk).expect("hash")).expect("sign");
                conv(&q)
            }
            fn sign_cc(m: &Cc<Self>, key: &RS<Self>) -> Cc<Self> {
                let mut q: rb::ComplaintCommits<$suite> = conv(m);
                q.signature = schnorr::sign(&$mk, key, &q.hash(&$mk).expect("hash")).expect("sign");
                conv(&q)
            }
            fn sign_rc(m: &Rc<Self>, key: &RS<Self>) -> Rc<Self> {
                let mut q: rb::ReconstructCommits<$suite> = conv(m);
                q.signature = schnorr::sign(&$mk, key, &q.hash(&$mk).expect("hash")).expect("sign");
                conv(&q)
            }
            fn round_sc(ctx: &Ctx, m: &Sc<Self>) {
                let q: rb::SecretCommits<$suite> = conv(m);
                crate::p_save::round(ctx, "secret-commits", &q, &|| json!({"engine": $name}));
            }
            fn round_cc(ctx: &Ctx, m: &Cc<Self>) {
                let q: rb::ComplaintCommits<$suite> = conv(m);
                crate::p_save::round(ctx, "complaint-commits", &q, &|| json!({"engine": $name}));
            }
            fn round_rc(ctx: &Ctx, m: &Rc<Self>) {
                let q: rb::ReconstructCommits<$suite> = conv(m);
                crate::p_save::round(ctx, "reconstruct-commits", &q, &|| json!({"engine": $name}));
            }
            fn save(g: &Self::G) -> Result<Vec<u8>, String> {
                bincode::serialize(g).map_err(e)
            }
            fn load(b: &[u8]) -> Result<Self::G, String> {
                bincode::deserialize(b).map_err(e)
            }
        }
    };
}
rbi!(RbToy, "toy", DkToy, Toy<M61>, Toy::<M61>);
rbi!(RbEd, "ed25519", DkEd, SuiteEd25519, SuiteEd25519::new_blake3_sha256_ed25519());

pub fn sc<X: Rb>(v: i64) -> RS<X> {
    <X::K as Dk>::sc(v)
}
pub fn pt<X: Rb>(s: &RS<X>) -> RP<X> {
    <X::K as Dk>::pt(s)
}

/// the polynomial behind false commitments that were made from one
fn false_poly<X: Rb>(w: &RWorld<X>, f: usize, kind: &str) -> Vec<RS<X>> {
    let mut co = w.polys[f].clone();
    let at: Vec<usize> = match kind.strip_prefix("fits ") {
        Some(k) => k.split(',').map(|x| x.parse().unwrap()).collect(),
        None => return co,
    };
    for (k, c) in vanishing::<X>(&at).into_iter().enumerate() {
        co[k] = co[k].clone() + c;
    }
    co
}
/// a polynomial that vanishes at the given participants
fn vanishing<X: Rb>(at: &[usize]) -> Vec<RS<X>> {
    let mut b = vec![sc::<X>(5)];
    for i in at {
        let x = sc::<X>(*i as i64 + 1);
        let mut nb = vec![sc::<X>(0); b.len() + 1];
        for (k, c) in b.iter().enumerate() {
            nb[k + 1] = nb[k + 1].clone() + c.clone();
            nb[k] = nb[k].clone() + c.clone() * sub::<X>(&sc::<X>(0), &x);
        }
        b = nb;
    }
    b
}
fn sub<X: Rb>(a: &RS<X>, b: &RS<X>) -> RS<X> {
    use kyber_rs::Scalar;
    a.clone().sub(a, b)
}
/// polynomial through the given shares, at degree < shares.len()
pub fn interpolate<X: Rb>(sh: &[MShare<RS<X>>]) -> Vec<RS<X>> {
    use kyber_rs::Scalar;
    let n = sh.len();
    let zero = || sc::<X>(0);
    let mut out = vec![zero(); n];
    for j in 0..n {
        // basis polynomial of point j
        let xj = sc::<X>(sh[j].i as i64 + 1);
        let mut b = vec![sc::<X>(1)];
        let mut den = sc::<X>(1);
        for m in 0..n {
            if m == j {
                continue;
            }
            let xm = sc::<X>(sh[m].i as i64 + 1);
            let mut nb = vec![zero(); b.len() + 1];
            for (k, c) in b.iter().enumerate() {
                nb[k + 1] = nb[k + 1].clone() + c.clone();
                nb[k] = nb[k].clone() + c.clone() * sub::<X>(&zero(), &xm);
            }
            b = nb;
            den = den * sub::<X>(&xj, &xm);
        }
        let f = sh[j].v.clone() * zero().inv(&den);
        for k in 0..n {
            out[k] = out[k].clone() + b[k].clone() * f.clone();
        }
    }
    out
}

pub struct RWorld<X: Rb> {
    pub n: usize,
    pub t: usize,
    pub keys: Vec<RS<X>>,
    pub pubs: Vec<RP<X>>,
    /// nodes after they issued their deals
    pub nodes: Vec<X::G>,
    pub deals: Vec<HashMap<usize, X::Deal>>,
    pub polys: Vec<Vec<RS<X>>>,
    pub sids: Vec<Vec<u8>>,
}
impl<X: Rb> RWorld<X> {
    pub fn build(n: usize, t: usize, seed: u64) -> Self {
        Self::build_with(&(0..n).collect::<Vec<_>>(), t, seed)
    }
    /// participants by the number of their key
    pub fn build_with(ids: &[usize], t: usize, seed: u64) -> Self {
        let n = ids.len();
        let keys: Vec<RS<X>> = ids.iter().map(|i| sc::<X>(61_337 + 15_485_863 * *i as i64)).collect();
        let pubs: Vec<RP<X>> = keys.iter().map(|k| pt::<X>(k)).collect();
        let (mut nodes, mut deals, mut polys, mut sids) = (vec![], vec![], vec![], vec![]);
        for i in 0..n {
            seed_rng(&format!("rabin{seed}-{i}"));
            let mut g = X::new(&keys[i], &pubs, t).expect("node");
            deals.push(X::deals(&mut g).expect("deals"));
            let sh: Vec<MShare<RS<X>>> = (0..t).map(|k| X::plain(&g, k).sec_share).collect();
            polys.push(interpolate::<X>(&sh));
            sids.push(X::sid(&g));
            nodes.push(g);
        }
        RWorld { n, t, keys, pubs, nodes, deals, polys, sids }
    }
    pub fn good(&self, d: usize, h: usize) -> MDeal<RS<X>, RP<X>> {
        X::plain(&self.nodes[d], h)
    }
    pub fn truth(&self, qual: &[usize]) -> Vec<RS<X>> {
        let mut co: Vec<RS<X>> = (0..self.t).map(|_| sc::<X>(0)).collect();
        for d in qual {
            for k in 0..self.t {
                co[k] = co[k].clone() + self.polys[*d][k].clone();
            }
        }
        co
    }
}

// ------------------------------------------------------------------------------------------------
// phase 1

/// behaviour of the one faulty node
#[derive(Clone, Debug, Default, PartialEq)]
pub struct P1 {
    pub faulty: Option<usize>,
    /// kind of deal for each honest holder
    pub kinds: BTreeMap<usize, String>,
    /// justification for complaints: "good", "wrong", "other-share", "none"
    pub just: String,
    /// response of the faulty node about each honest dealer: "ok", "complaint", "none"
    pub resp: String,
}
pub const KINDS: [&str; 12] = ["good", "missing", "share+1", "rnd+1", "share-of-other", "other-polynomial", "commit+1", "t+1", "t-1", "sid-garbage", "bad-cipher", "bad-sig"];

impl P1 {
    pub fn label(&self) -> String {
        match self.faulty {
            None => "all honest".into(),
            Some(f) => format!("faulty {f}: deals {:?}, justification {}, responses {}", self.kinds.values().collect::<Vec<_>>(), self.just, self.resp),
        }
    }
    pub fn kind(&self, d: usize, h: usize) -> &str {
        if Some(d) == self.faulty {
            self.kinds.get(&h).map(|s| s.as_str()).unwrap_or("good")
        } else {
            "good"
        }
    }
}
/// (deal, its content is right for this node, the session of its content is the dealer's)
pub fn deal_of<X: Rb>(w: &RWorld<X>, w2: &RWorld<X>, d: usize, h: usize, kind: &str) -> Option<X::Deal> {
    let g = w.good(d, h);
    seed_rng(&format!("rcraft{d}{h}{kind}"));
    let o = (h + 1) % w.n;
    let craft = |m: &MDeal<RS<X>, RP<X>>| Some(X::craft_deal(&w.nodes[d], d as u32, h, m));
    let mut m = g.clone();
    match kind {
        "missing" => None,
        "good" => w.deals[d].get(&h).cloned(),
        "share+1" => {
            m.sec_share.v = m.sec_share.v + sc::<X>(1);
            craft(&m)
        }
        "rnd+1" => {
            let r = m.rnd_share.as_mut().unwrap();
            r.v = r.v.clone() + sc::<X>(1);
            craft(&m)
        }
        "share-of-other" => {
            let og = w.good(d, o);
            m.sec_share.v = og.sec_share.v;
            m.rnd_share.as_mut().unwrap().v = og.rnd_share.unwrap().v;
            craft(&m)
        }
        // consistent in itself, but another sharing
        "other-polynomial" => Some(X::craft_deal(&w2.nodes[d], d as u32, h, &w2.good(d, h))),
        "commit+1" => {
            m.commitments[0] = <X::K as Dk>::padd(&m.commitments[0], &pt::<X>(&sc::<X>(1)));
            craft(&m)
        }
        "t+1" => {
            m.t += 1;
            craft(&m)
        }
        "t-1" => {
            m.t -= 1;
            craft(&m)
        }
        "sid-garbage" => {
            m.session_id[0] ^= 1;
            craft(&m)
        }
        "bad-cipher" => Some(X::patch_deal(w.deals[d].get(&h)?, &|v| {
            let a = v["deal"]["cipher"].as_array_mut().unwrap();
            a[0] = json!(a[0].as_u64().unwrap() ^ 1);
        })),
        "bad-sig" => Some(X::patch_deal(w.deals[d].get(&h)?, &|v| {
            let a = v["deal"]["signature"].as_array_mut().unwrap();
            a[0] = json!(a[0].as_u64().unwrap() ^ 1);
        })),
        k => panic!("kind {k}"),
    }
}

#[derive(Clone)]
pub enum B1<X: Rb> {
    Deal { d: usize, m: X::Deal },
    Resp { d: usize, v: usize, ok: bool, m: rb::Response },
    Just { d: usize, v: usize, good: bool, m: X::J },
    Timeout,
    /// must be refused
    Bad1Deal(X::Deal),
    BadResp(rb::Response),
    BadJust(X::J),
}
pub struct E1<X: Rb> {
    pub id: String,
    pub b: B1<X>,
}

/// reference view of one dealer at the observed node
#[derive(Clone, Default, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct D1 {
    pub have: bool,
    pub resp: BTreeMap<usize, bool>,
    pub bad: bool,
}
pub struct Scn1<'a, X: Rb> {
    pub w: &'a RWorld<X>,
    pub p: P1,
    pub ev: Vec<E1<X>>,
    /// session each holder derives from its deal (None: no usable deal)
    pub sess: Vec<Vec<Option<Vec<u8>>>>,
    /// whether the deal for h is right
    pub right: Vec<Vec<bool>>,
    pub equiv: bool,
}

/// what an honest holder h makes of its deal from d: the response, or nothing
fn respond<X: Rb>(w: &RWorld<X>, d: usize, h: usize, m: &X::Deal) -> Option<rb::Response> {
    let mut n = w.nodes[h].clone();
    seed_rng(&format!("resp{d}-{h}"));
    guard(|| X::on_deal(&mut n, m)).ok()?.ok()
}

pub fn scenario1<'a, X: Rb>(w: &'a RWorld<X>, w2: &RWorld<X>, p: &P1, me: usize, bad: bool) -> Scn1<'a, X> {
    let n = w.n;
    let mut ev: Vec<E1<X>> = vec![];
    let mut sess = vec![vec![None; n]; n];
    let mut right = vec![vec![true; n]; n];
    let mut resps: Vec<(usize, usize, bool, rb::Response)> = vec![];
    for d in 0..n {
        sess[d][d] = Some(w.sids[d].clone());
        for h in (0..n).filter(|h| *h != d) {
            let k = p.kind(d, h);
            right[d][h] = matches!(k, "good" | "other-polynomial");
            let m = deal_of(w, w2, d, h, k);
            if let Some(m) = &m {
                if h == me {
                    ev.push(E1 { id: format!("deal {d} ({k})"), b: B1::Deal { d, m: m.clone() } });
                }
                if Some(h) != p.faulty {
                    if let Some(r) = respond(w, d, h, m) {
                        sess[d][h] = Some(r.response.session_id.clone());
                        resps.push((d, h, r.response.approved, r));
                    }
                } else {
                    sess[d][h] = Some(w.sids[d].clone());
                    match p.resp.as_str() {
                        "none" => {}
                        x => {
                            seed_rng("fr");
                            let ok = x == "ok";
                            resps.push((d, h, ok, X::resp(d as u32, &w.sids[d], h as u32, ok, &w.keys[h])))
                        }
                    }
                }
            }
        }
    }
    for (d, v, ok, r) in &resps {
        if *v == me {
            continue;
        }
        ev.push(E1 { id: format!("response of {v} about {d} ({})", if *ok { "ok" } else { "complaint" }), b: B1::Resp { d: *d, v: *v, ok: *ok, m: r.clone() } });
    }
    // justifications of other dealers
    for (d, v, ok, r) in &resps {
        if *ok || *d == me {
            continue;
        }
        seed_rng(&format!("just{d}-{v}"));
        let (good, m) = if Some(*d) == p.faulty {
            let g = w.good(*d, *v);
            match p.just.as_str() {
                "good" => (true, X::craft_just(&w.nodes[*d], r, None)),
                "wrong" => {
                    let mut m = g;
                    m.sec_share.v = m.sec_share.v + sc::<X>(1);
                    (false, X::craft_just(&w.nodes[*d], r, Some(&m)))
                }
                "other-share" => (false, X::craft_just(&w.nodes[*d], r, Some(&w.good(*d, (*v + 1) % n)))),
                _ => (false, None),
            }
        } else {
            (true, X::craft_just(&w.nodes[*d], r, None))
        };
        if let Some(m) = m {
            ev.push(E1 { id: format!("justification of {d} for {v} ({})", if good { "good" } else { "wrong" }), b: B1::Just { d: *d, v: *v, good, m } });
        }
    }
    ev.push(E1 { id: "timeout".into(), b: B1::Timeout });
    if bad {
        let f = p.faulty.unwrap_or((me + 1) % n);
        let o = (0..n).find(|x| *x != me && *x != f).unwrap_or(f);
        seed_rng("bad1");
        let mut add = |id: &str, b: B1<X>| ev.push(E1 { id: format!("forged: {id}"), b });
        for (id, d, sid, idx, ok, key) in [
            ("complaint in another's name", o as u32, &w.sids[o], o as u32, false, f),
            ("complaint of me, signed by f", o as u32, &w.sids[o], me as u32, false, f),
            ("approval for another session", o as u32, &w.sids[f], f as u32, true, f),
            ("response about unknown dealer", n as u32, &w.sids[o], f as u32, false, f),
            ("response about dealer 2^32-1", u32::MAX, &w.sids[o], f as u32, false, f),
            ("response of unknown participant", o as u32, &w.sids[o], n as u32, false, f),
        ] {
            add(id, B1::BadResp(X::resp(d, sid, idx, ok, &w.keys[key])));
        }
        if let Some(m) = w.deals[o].get(&f) {
            add("deal meant for another", B1::Bad1Deal(m.clone()));
        }
        if let Some(m) = w.deals[f].get(&me) {
            add("deal of f as another's", B1::Bad1Deal(X::patch_deal(m, &|v| v["index"] = json!(o))));
            add("deal of unknown dealer", B1::Bad1Deal(X::patch_deal(m, &|v| v["index"] = json!(n))));
            add("deal of f as mine", B1::Bad1Deal(X::patch_deal(m, &|v| v["index"] = json!(me))));
        }
        // a justification where nobody complained
        let r = X::resp(f as u32, &w.sids[f], o as u32, false, &w.keys[o]);
        if let Some(j) = X::craft_just(&w.nodes[f], &r, None) {
            if o != f && !resps.iter().any(|(d, v, ok, _)| (*d, *v) == (f, o) && !*ok) {
                // after the timeout a missing answer counts as a complaint, which may then be justified
                let _ = j;
            }
        }
    }
    let equiv = match p.faulty {
        Some(f) => {
            let s: BTreeSet<Option<Vec<u8>>> = (0..n).filter(|h| *h != f).map(|h| sess[f][h].clone()).filter(|s| s.is_some()).collect();
            s.len() > 1 || s.iter().any(|x| x.as_ref() != Some(&w.sids[f]))
        }
        None => false,
    };
    Scn1 { w, p: p.clone(), ev, sess, right, equiv }
}

pub fn certified1(d: &D1, n: usize, t: usize) -> bool {
    let ok = d.resp.values().filter(|x| **x).count();
    d.have && !d.bad && d.resp.len() == n && ok >= t && n - ok < t
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct M1 {
    pub d: Vec<D1>,
    pub done: BTreeSet<usize>,
    pub timeout: bool,
}

/// conclusions of one node, grouped by what was broadcast
pub struct Concl1 {
    pub me: usize,
    pub qual: Vec<usize>,
    pub history: Vec<String>,
}

pub fn init1<X: Rb>(w: &RWorld<X>, me: usize) -> M1 {
    let mut d = vec![D1::default(); w.n];
    d[me].have = true;
    d[me].resp.insert(me, true);
    M1 { d, done: BTreeSet::new(), timeout: false }
}

/// what the reference expects of event `ev`: (accepted, next state), or None if not decided here
pub fn step1<X: Rb>(s: &Scn1<X>, me: usize, m: &M1, ev: usize) -> (bool, M1) {
    let mut x = m.clone();
    let ok = match &s.ev[ev].b {
        B1::Deal { d, .. } => {
            let k = s.p.kind(*d, me);
            if m.d[*d].have || matches!(k, "bad-cipher" | "bad-sig") || s.sess[*d][me].is_none() {
                false
            } else {
                x.d[*d].have = true;
                x.d[*d].resp.insert(*d, true);
                x.d[*d].resp.insert(me, s.right[*d][me]);
                true
            }
        }
        B1::Resp { d, v, ok, .. } => {
            let known = s.sess[*d][me].is_some() && s.sess[*d][me] == s.sess[*d][*v];
            if !m.d[*d].have || m.d[*d].resp.contains_key(v) || !known {
                false
            } else {
                // a complaint about me is answered at once
                x.d[*d].resp.insert(*v, *ok || *d == me);
                true
            }
        }
        B1::Just { d, v, good, .. } => {
            if !m.d[*d].have || m.d[*d].resp.get(v) != Some(&false) || s.sess[*d][me].is_none() {
                false
            } else if *good && s.sess[*d][me].as_ref() == Some(&s.w.sids[*d]) && s.sess[*d][*v] == s.sess[*d][me] {
                x.d[*d].resp.insert(*v, true);
                true
            } else {
                if s.sess[*d][*v] == s.sess[*d][me] {
                    x.d[*d].bad = true;
                }
                false
            }
        }
        B1::Timeout => {
            if !m.timeout {
                x.timeout = true;
                for d in x.d.iter_mut().filter(|d| d.have) {
                    for v in 0..s.w.n {
                        d.resp.entry(v).or_insert(false);
                    }
                }
            }
            true
        }
        _ => false,
    };
    if ok {
        x.done.insert(ev);
    }
    (ok, x)
}

pub fn apply1<X: Rb>(g: &mut X::G, b: &B1<X>) -> Result<(bool, Option<bool>, bool), String> {
    seed_rng("p1");
    guard(|| match b {
        B1::Deal { m, .. } | B1::Bad1Deal(m) => match X::on_deal(g, m) {
            Ok(r) => (true, Some(r.response.approved), false),
            Err(_) => (false, None, false),
        },
        B1::Resp { m, .. } | B1::BadResp(m) => match X::on_resp(g, m) {
            Ok(j) => (true, None, j.is_some()),
            Err(_) => (false, None, false),
        },
        B1::Just { m, .. } | B1::BadJust(m) => (X::on_just(g, m).is_ok(), None, false),
        B1::Timeout => {
            X::timeout(g);
            (true, None, false)
        }
    })
}

/// the message, serialised and read back
fn resent1<X: Rb>(ctx: &Ctx, e: &E1<X>) -> B1<X> {
    use crate::p_save::round;
    let case = || json!({"engine": X::NAME, "message": e.id});
    let mut f = e.b.clone();
    match &mut f {
        B1::Deal { m, .. } | B1::Bad1Deal(m) => *m = round(ctx, "deal", m, &case).unwrap_or(m.clone()),
        B1::Resp { m, .. } | B1::BadResp(m) => *m = round(ctx, "response", m, &case).unwrap_or(m.clone()),
        B1::Just { m, .. } | B1::BadJust(m) => *m = round(ctx, "justification", m, &case).unwrap_or(m.clone()),
        B1::Timeout => {}
    }
    f
}

/// explore phase 1 at one node to closure
pub fn explore1<X: Rb>(ctx: &Ctx, s: &Scn1<X>, me: usize, concl: &Mutex<HashMap<Vec<String>, Vec<Concl1>>>, paths: &mut Vec<Vec<usize>>, keep: usize) {
    let (n, t) = (s.w.n, s.w.t);
    let case = |path: &[usize], ev: &str| json!({"engine": X::NAME, "phase": 1, "n": n, "t": t, "scenario": s.p.label(), "observed": me, "history": path.iter().map(|k| s.ev[*k].id.clone()).collect::<Vec<_>>(), "event": ev});
    let twins = crate::p_save::Twins::new(X::NAME);
    let ev2: Vec<B1<X>> = if ctx.restoring() { s.ev.iter().map(|e| resent1(ctx, e)).collect() } else { vec![] };
    let obs = |g: &X::G| {
        let mut h = g.clone();
        format!("{:?}", guard(|| (X::qual(g), X::certified(g), X::finished(g), X::sid(g), X::key(g).map(|k| (k.share, k.commits.iter().map(|c| kyber_rs::encoding::BinaryMarshaler::marshal_binary(c).ok()).collect::<Vec<_>>())).map_err(|_| "no key"), { seed_rng("sc"); X::secret_commits(&mut h).map(|m| crate::canon::canon_masked(&m)).map_err(|_| "no commitments") })))
    };
    let mut cnt = 0;
    let mut lpaths: Vec<Vec<usize>> = vec![];
    let (ns, nt, complete) = bfs(
        vec![(s.w.nodes[me].clone(), init1(s.w, me))],
        ctx.pick(400_000, 3_000_000),
        |(g, m)| (canon(g), m.clone()),
        |(g, m), path| {
            cnt += 1;
            ctx.eval();
            let want: Vec<usize> = (0..n).filter(|d| certified1(&m.d[*d], n, t)).collect();
            match guard(|| (X::qual(g), (0..n as u32 + 2).filter(|i| X::is_in_qual(g, *i)).map(|x| x as usize).collect::<Vec<_>>(), X::certified(g))) {
                Err(p) => ctx.fail("panic", p, case(path, "qual")),
                Ok((q, iq, c)) => {
                    ctx.check(q == want, "qual-wrong", "the qualified set must be that of the dealers certified by the messages so far", || case(path, &format!("expected {want:?}, got {q:?}")));
                    ctx.check(iq == want, "in-qual-wrong", "is_in_qual must agree with the qualified set", || case(path, &format!("expected {want:?}, got {iq:?}")));
                    ctx.check(c == (want.len() >= t), "certified-wrong", "certified exactly with t qualified dealers", || case(path, &format!("qual {want:?}, certified {c}")));
                }
            }
            // before the second phase nobody has a key
            match guard(|| (X::finished(g), X::key(g).is_ok())) {
                Err(p) => ctx.fail("panic", p, case(path, "dist_key_share")),
                Ok((f, k)) => {
                    ctx.check(!f && !k, "key-before-commitments", "no key may be released before the secret commitments", || case(path, "dist_key_share"));
                }
            }
            // own commitments exactly when the own deal is certified
            let mut h = g.clone();
            seed_rng("sc");
            match guard(|| X::secret_commits(&mut h)) {
                Err(p) => ctx.fail("panic", p, case(path, "secret_commits")),
                Ok(r) => {
                    let can = want.contains(&me);
                    ctx.check(r.is_ok() == can, if can { "commits-withheld" } else { "commits-early" }, "secret commitments are published exactly when the own deal is certified", || case(path, &format!("qual {want:?}, secret_commits {:?}", r.as_ref().map(|_| "Ok").map_err(|e| e.clone()))));
                    if let Ok(m) = r {
                        let ok = m.commitments.len() == t && (0..t).all(|k| m.commitments[k] == pt::<X>(&s.w.polys[me][k]));
                        ctx.check(ok, "commits-wrong", "the published commitments must be those of the dealt polynomial", || case(path, "secret_commits"));
                    }
                }
            }
            ctx.outcome(&format!("qual {}", want.len()));
            if want.len() >= t {
                ctx.nontriv();
            }
            // everything that counts was delivered (before the timeout)
            let settled = |m: &M1| s.ev.iter().enumerate().all(|(k, e)| m.done.contains(&k) || matches!(e.b, B1::Timeout | B1::Bad1Deal(_) | B1::BadResp(_) | B1::BadJust(_)) || { let (ok, x) = step1(s, me, m, k); !ok && x == *m });
            let all = if m.timeout {
                matches!(path.last(), Some(k) if matches!(s.ev[*k].b, B1::Timeout)) && {
                    let mut x = init1(s.w, me);
                    for k in &path[..path.len() - 1] {
                        x = step1(s, me, &x, *k).1;
                    }
                    settled(&x)
                }
            } else {
                settled(m)
            };
            if all {
                let key = vec![format!("timeout {}", m.timeout)];
                concl.lock().unwrap().entry(key).or_default().push(Concl1 { me, qual: want, history: path.iter().map(|k| s.ev[*k].id.clone()).collect() });
            }
            if keep > 0 && cnt % keep == 0 {
                lpaths.push(path.to_vec());
            }
        },
        |(g, m), path| {
            let mut out = vec![];
            let base = g.clone();
            for k in 0..s.ev.len() {
                if matches!(s.ev[k].b, B1::Timeout) && m.timeout {
                    continue;
                }
                let (ok, x) = step1(s, me, m, k);
                let mut h = base.clone();
                let r = apply1::<X>(&mut h, &s.ev[k].b);
                twins.step(ctx, path, k, g, &h, &r, &|h: &mut X::G| apply1::<X>(h, &ev2[k]), &obs, &|| case(path, &s.ev[k].id));
                let r = match r {
                    Err(p) => {
                        ctx.fail("panic", p, case(path, &s.ev[k].id));
                        continue;
                    }
                    Ok(r) => r,
                };
                let kind = s.ev[k].id.split(' ').next().unwrap_or("").trim_end_matches(':').to_string();
                if r.0 != ok {
                    ctx.fail(&format!("{kind}-verdict"), format!("expected {}, got {}", if ok { "accepted" } else { "refused" }, if r.0 { "accepted" } else { "refused" }), case(path, &s.ev[k].id));
                    continue;
                }
                if let (true, B1::Deal { d, .. }) = (ok, &s.ev[k].b) {
                    ctx.check(r.1 == Some(s.right[*d][me]), "deal-answer", "a deal is approved exactly when it is right", || case(path, &s.ev[k].id));
                }
                if let (true, B1::Resp { d, ok: a, .. }) = (ok, &s.ev[k].b) {
                    ctx.check(r.2 == (*d == me && !*a), "justification-issued", "a justification answers exactly a complaint about the own deal", || case(path, &s.ev[k].id));
                }
                if x != *m || canon(&h) != canon(g) {
                    out.push((k, (h, x)));
                }
            }
            out
        },
    );
    paths.extend(lpaths);
    ctx.st(ns);
    ctx.tr(nt);
    if !complete {
        ctx.fail("state-bound", "state space not closed within the bound", case(&[], ""));
    }
}

fn replay1<X: Rb, Y: Rb>(ctx: &Ctx, a: &Scn1<X>, b: &Scn1<Y>, me: usize, paths: &[Vec<usize>]) {
    for p in paths {
        let (mut ga, mut gb) = (a.w.nodes[me].clone(), b.w.nodes[me].clone());
        let mut ok = true;
        for k in p {
            let ra = apply1::<X>(&mut ga, &a.ev[*k].b);
            let rb_ = apply1::<Y>(&mut gb, &b.ev[*k].b);
            let sa = guard(|| (X::qual(&ga), X::certified(&ga))).ok();
            let sb = guard(|| (Y::qual(&gb), Y::certified(&gb))).ok();
            if a.ev[*k].id != b.ev[*k].id || ra.ok() != rb_.ok() || sa != sb {
                ctx.fail("suites-disagree", format!("{} differs between {} and {}", a.ev[*k].id, X::NAME, Y::NAME), json!({"scenario": a.p.label(), "observed": me, "history": p.iter().map(|i| a.ev[*i].id.clone()).collect::<Vec<_>>()}));
                ok = false;
                break;
            }
        }
        if ok {
            ctx.trace(1);
        }
    }
}

fn agreement1<X: Rb>(ctx: &Ctx, s: &Scn1<X>, concl: &HashMap<Vec<String>, Vec<Concl1>>) {
    for l in concl.values() {
        let mut seen: BTreeMap<(usize, Vec<usize>), &Concl1> = BTreeMap::new();
        for c in l {
            seen.entry((c.me, c.qual.clone())).or_insert(c);
        }
        let v: Vec<&&Concl1> = seen.values().collect();
        for i in 0..v.len() {
            for j in 0..i {
                ctx.tr(1);
                if v[i].qual == v[j].qual {
                    continue;
                }
                let f = s.p.faulty;
                let diff: Vec<usize> = (0..s.w.n).filter(|d| v[i].qual.contains(d) != v[j].qual.contains(d)).collect();
                let nodeal = |c: &Concl1| f.map_or(false, |f| c.me != f && s.sess[f][c.me].is_none());
                let key = if diff.iter().all(|d| Some(*d) == f) && (nodeal(v[i]) != nodeal(v[j])) {
                    "split-by-withheld-deal"
                } else if diff.iter().all(|d| Some(*d) == f) && s.equiv {
                    "split-by-inconsistent-deals"
                } else {
                    "disagreement"
                };
                ctx.fail(key, format!("nodes {} and {} saw the same broadcasts but conclude qual {:?} / {:?}", v[i].me, v[j].me, v[i].qual, v[j].qual), json!({"engine": X::NAME, "scenario": s.p.label(), "n": s.w.n, "t": s.w.t, "a": v[i].history, "b": v[j].history}));
            }
        }
    }
}
pub struct Plan1 {
    pub n: usize,
    pub t: usize,
    pub p: P1,
    pub bad: bool,
    pub replay: bool,
}
pub fn run1<X: Rb, Y: Rb>(ctx: &Ctx, plans: &[Plan1], keep: usize) {
    let mut worlds: HashMap<(usize, usize), (RWorld<X>, RWorld<X>, RWorld<Y>, RWorld<Y>)> = HashMap::new();
    for p in plans {
        worlds.entry((p.n, p.t)).or_insert_with(|| (RWorld::build(p.n, p.t, 1), RWorld::build(p.n, p.t, 2), RWorld::build(p.n, p.t, 1), RWorld::build(p.n, p.t, 2)));
    }
    par_items(plans, |p| {
        let (w, w2, y, y2) = &worlds[&(p.n, p.t)];
        let concl = Mutex::new(HashMap::new());
        let mut last = None;
        for me in (0..p.n).filter(|m| Some(*m) != p.p.faulty) {
            let s = scenario1(w, w2, &p.p, me, p.bad);
            let mut paths = vec![];
            explore1::<X>(ctx, &s, me, &concl, &mut paths, if p.replay { keep } else { 0 });
            if p.replay {
                let b = scenario1(y, y2, &p.p, me, p.bad);
                replay1::<X, Y>(ctx, &s, &b, me, &paths);
            }
            last = Some(s);
        }
        agreement1::<X>(ctx, &last.unwrap(), &concl.into_inner().unwrap());
    });
}

fn plans1(ctx: &Ctx) -> Vec<Plan1> {
    let mut v = vec![];
    for (n, t) in [(2, 2), (3, 2), (3, 3)] {
        v.push(Plan1 { n, t, p: P1::default(), bad: n == 3 && t == 2, replay: true });
    }
    v.push(Plan1 { n: 4, t: 2, p: P1::default(), bad: false, replay: false });
    v.push(Plan1 { n: 4, t: 3, p: P1::default(), bad: false, replay: false });
    if ctx.thorough() {
        v.push(Plan1 { n: 4, t: 4, p: P1::default(), bad: false, replay: false });
        for (f, t) in [(0usize, 2), (3, 3)] {
            let hon: Vec<usize> = (0..4).filter(|x| *x != f).collect();
            for k in ["missing", "share+1", "other-polynomial", "t+1"] {
                for h in &hon {
                    for js in if k == "share+1" { vec!["good", "wrong", "none"] } else { vec!["none"] } {
                        let mut p = P1 { faulty: Some(f), just: js.into(), resp: "ok".into(), ..Default::default() };
                        p.kinds.insert(*h, k.to_string());
                        v.push(Plan1 { n: 4, t, p, bad: false, replay: false });
                    }
                }
            }
        }
    }
    for f in 0..3usize {
        let hon: Vec<usize> = (0..3).filter(|x| *x != f).collect();
        for (i, a) in KINDS.iter().enumerate() {
            for (j, b) in KINDS.iter().enumerate() {
                if !(i == 0 || j == 0 || i == j || ctx.thorough()) {
                    continue;
                }
                let compl = |k: &str| matches!(k, "share+1" | "rnd+1" | "share-of-other" | "commit+1" | "t+1" | "t-1" | "sid-garbage");
                let js: Vec<&str> = if compl(a) || compl(b) { vec!["good", "wrong", "other-share", "none"] } else { vec!["none"] };
                for js in js {
                    for r in ["ok", "complaint", "none"] {
                        if r != "ok" && i + j > 2 && js != "good" {
                            continue;
                        }
                        for t in [2, 3] {
                            if t == 3 && !(i == 0 || j == 0) {
                                continue;
                            }
                            let mut p = P1 { faulty: Some(f), just: js.into(), resp: r.into(), ..Default::default() };
                            p.kinds.insert(hon[0], a.to_string());
                            p.kinds.insert(hon[1], b.to_string());
                            v.push(Plan1 { n: 3, t, p, bad: false, replay: f == 2 && t == 2 });
                        }
                    }
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------------------------------------
// phase 2

/// false publication of the faulty dealer
pub fn false_sc<X: Rb>(w: &RWorld<X>, f: usize, kind: &str) -> Option<Sc<X>> {
    let t = w.t;
    let co: Vec<RP<X>> = w.polys[f].iter().map(|c| pt::<X>(c)).collect();
    let add = |c: &[RP<X>], q: &[RS<X>]| -> Vec<RP<X>> {
        let l = c.len().max(q.len());
        (0..l)
            .map(|k| {
                let a = c.get(k).cloned().unwrap_or_else(|| pt::<X>(&sc::<X>(0)));
                match q.get(k) {
                    Some(q) => <X::K as Dk>::padd(&a, &pt::<X>(q)),
                    None => a,
                }
            })
            .collect()
    };
    let vanish = |at: &[usize]| vanishing::<X>(at);
    let m = match kind {
        "true" => co,
        "none" => return None,
        "constant+1" => add(&co, &[sc::<X>(1)]),
        "last+1" => add(&co, &{
            let mut q = vec![sc::<X>(0); t];
            q[t - 1] = sc::<X>(1);
            q
        }),
        "zero" => vec![pt::<X>(&sc::<X>(0)); t],
        "blinded" => w.good(f, 0).commitments,
        "another's" => w.polys[(f + 1) % w.n].iter().map(|c| pt::<X>(c)).collect(),
        "empty" => vec![],
        "short" => co[..t - 1].to_vec(),
        "long-true" => [co.clone(), vec![pt::<X>(&sc::<X>(0))]].concat(),
        "long-fits-all" => add(&co, &vanish(&(0..w.n).collect::<Vec<_>>())),
        k => {
            let at: Vec<usize> = k.strip_prefix("fits ").unwrap().split(',').map(|x| x.parse().unwrap()).collect();
            add(&co, &vanish(&at))
        }
    };
    seed_rng("falsesc");
    Some(X::sign_sc(&MSc { index: f as u32, commitments: m, session_id: w.sids[f].clone(), signature: vec![] }, &w.keys[f]))
}

#[derive(Clone)]
pub enum B2<X: Rb> {
    /// secret commitments; whether they must be refused outright
    Sc { d: usize, m: Sc<X>, forged: bool },
    /// complaint about d by v; honest: produced by an honest node
    Cc { d: usize, m: Cc<X>, honest: bool },
    Rc { d: usize, m: Rc<X>, honest: bool },
    /// the observed node publishes its own commitments
    Publish,
    /// the observed node hears its own complaint
    OwnCc,
}
pub struct E2<X: Rb> {
    pub id: String,
    pub b: B2<X>,
    /// available only once the observed node has complained
    pub after_mine: bool,
}

pub struct Plan2 {
    pub n: usize,
    pub t: usize,
    pub faulty: usize,
    pub p1: P1,
    pub timeout: bool,
    pub kind: String,
    /// which forged material is mixed in
    pub forge: bool,
    /// colluding verifier
    pub colluder: Option<usize>,
}
impl Plan2 {
    pub fn label(&self) -> String {
        format!("n={} t={} faulty={} phase 1: {}{}; secret commitments {}{}{}", self.n, self.t, self.faulty, self.p1.label(), if self.timeout { " + timeout" } else { "" }, self.kind, if self.forge { ", forged messages" } else { "" }, self.colluder.map_or(String::new(), |c| format!(", colluding verifier {c}")))
    }
}

/// phase 1 delivered completely, in one order, at every honest node
pub fn after_phase1<X: Rb>(w: &RWorld<X>, w2: &RWorld<X>, p: &P1, timeout: bool) -> Result<Vec<Option<X::G>>, String> {
    let mut out = vec![];
    for me in 0..w.n {
        if Some(me) == p.faulty && p.kinds.values().any(|k| k != "good") {
            out.push(Some(w.nodes[me].clone()));
            continue;
        }
        let s = scenario1(w, w2, p, me, false);
        let mut g = w.nodes[me].clone();
        for e in s.ev.iter() {
            if !matches!(e.b, B1::Timeout) {
                let _ = apply1::<X>(&mut g, &e.b)?;
            }
        }
        if timeout {
            X::timeout(&mut g);
        }
        out.push(Some(g));
    }
    Ok(out)
}

pub struct Scn2<X: Rb> {
    pub ev: Vec<E2<X>>,
    pub start: X::G,
    pub qual: Vec<usize>,
    pub truth: Vec<RS<X>>,
    /// an honest node has reason to complain about the faulty dealer
    pub exposed: bool,
    /// must the observed node end with a key
    pub live: bool,
}

/// None: nothing to observe (the observed node has no part in phase 2)
pub fn scenario2<X: Rb>(ctx: &Ctx, w: &RWorld<X>, w2: &RWorld<X>, p: &Plan2, me: usize) -> Option<Scn2<X>> {
    let (n, f) = (w.n, p.faulty);
    let case = || json!({"engine": X::NAME, "phase": 2, "scenario": p.label(), "observed": me});
    let nodes = match after_phase1(w, w2, &p.p1, p.timeout) {
        Ok(v) => v,
        Err(e) => {
            ctx.fail("panic", e, case());
            return None;
        }
    };
    let bad = |i: usize| i == f || Some(i) == p.colluder;
    // an honest node whose complaint was never answered has no share of this dealer (with fewer than t
    // complaints the dealer still qualifies)
    let usable = |v: usize| p.p1.kind(f, v) == "good" || (p.p1.kind(f, v) != "missing" && p.p1.just == "good");
    let start = nodes[me].clone()?;
    let qual = guard(|| X::qual(&start)).ok()?;
    let mut ev: Vec<E2<X>> = vec![];
    let mut scs: BTreeMap<usize, Sc<X>> = BTreeMap::new();
    for d in 0..n {
        if !qual.contains(&d) {
            if d == f {
                if let Some(m) = false_sc::<X>(w, f, &p.kind) {
                    if d != me {
                        ev.push(E2 { id: format!("commitments of unqualified {d}"), b: B2::Sc { d, m, forged: true }, after_mine: false });
                    }
                }
            }
            continue;
        }
        let m = if d == f {
            false_sc::<X>(w, f, &p.kind)
        } else {
            let mut g = nodes[d].clone().unwrap();
            seed_rng(&format!("scof{d}"));
            match guard(|| X::secret_commits(&mut g)) {
                Ok(Ok(m)) => Some(m),
                r => {
                    ctx.fail("commits-withheld", format!("a qualified honest dealer cannot publish its commitments: {:?}", r.map(|x| x.err())), case());
                    None
                }
            }
        };
        if let Some(m) = m {
            scs.insert(d, m);
        }
    }
    let mut truth = w.truth(&qual);
    // complaints and shares of the other honest nodes, produced by the real code
    let fsc = if qual.contains(&f) { scs.get(&f).cloned() } else { None };
    let mut complaints: Vec<(usize, Cc<X>)> = vec![];
    if let Some(m) = &fsc {
        for v in (0..n).filter(|v| !bad(*v) && usable(*v)) {
            let fits = m.commitments.len() == w.t && {
                let sh = w.good(f, v).sec_share;
                eval_commits::<X::K>(&m.commitments, v as i64 + 1) == pt::<X>(&sh.v)
            };
            let mut g = nodes[v].clone().unwrap();
            seed_rng(&format!("cc{v}"));
            match guard(|| X::on_sc(&mut g, m)) {
                Ok(Ok(Some(c))) => {
                    ctx.check(!fits && v == c.index as usize && c.dealer_index as usize == f, "complaint-without-reason", "commitments that match the share must not be complained about", case);
                    if !fits {
                        complaints.push((v, c));
                    }
                }
                Ok(Ok(None)) => {
                    ctx.check(fits, "false-commitments-accepted", "commitments that do not match the share (or the threshold) must be complained about", || { let mut c = case(); c["node"] = json!(v); c });
                }
                Ok(Err(e)) => ctx.fail("false-commitments-error", format!("false commitments of a qualified dealer must lead to a complaint, got {e}"), { let mut c = case(); c["node"] = json!(v); c }),
                Err(e) => ctx.fail("panic", e, { let mut c = case(); c["node"] = json!(v); c }),
            }
        }
    }
    let exposed = !complaints.is_empty();
    let mut rcs: Vec<(usize, Rc<X>)> = vec![];
    for v in (0..n).filter(|v| !bad(*v) && usable(*v)) {
        // the first complaint that this node can process
        let mut last = String::new();
        for (_, c) in &complaints {
            let mut g = nodes[v].clone().unwrap();
            seed_rng(&format!("rc{v}"));
            let r = guard(|| {
                for (d, m) in &scs {
                    if *d != v {
                        let _ = X::on_sc(&mut g, m);
                    }
                }
                X::on_cc(&mut g, c)
            });
            match r {
                Ok(Ok(m)) => {
                    rcs.push((v, m));
                    last.clear();
                    break;
                }
                Ok(Err(e)) => last = e,
                Err(e) => last = e,
            }
        }
        // (without a certified set nobody takes part in this phase)
        if !last.is_empty() && qual.len() >= w.t {
            ctx.fail("complaint-refused", format!("an honest node cannot process any of the valid complaints: {last}"), { let mut c = case(); c["node"] = json!(v); c });
        }
    }
    // the shares revealed by honest nodes must be the dealt ones
    for (v, m) in &rcs {
        let sh = w.good(f, *v).sec_share;
        ctx.check(m.share == sh && m.dealer_index as usize == f && m.index as usize == *v, "revealed-share-wrong", "a node must reveal the share it was dealt", || { let mut c = case(); c["node"] = json!(v); c });
    }
    // alphabet
    ev.push(E2 { id: "publish own commitments".into(), b: B2::Publish, after_mine: false });
    for (d, m) in &scs {
        if *d != me {
            ev.push(E2 { id: format!("commitments of {d}"), b: B2::Sc { d: *d, m: m.clone(), forged: false }, after_mine: false });
        }
    }
    let only_me = complaints.iter().all(|(v, _)| *v == me);
    for (v, m) in &complaints {
        if *v != me {
            ev.push(E2 { id: format!("complaint of {v}"), b: B2::Cc { d: f, m: m.clone(), honest: true }, after_mine: false });
        } else {
            ev.push(E2 { id: "own complaint".into(), b: B2::OwnCc, after_mine: true });
        }
    }
    for (v, m) in &rcs {
        if *v != me {
            ev.push(E2 { id: format!("share revealed by {v}"), b: B2::Rc { d: f, m: m.clone(), honest: true }, after_mine: only_me });
        }
    }
    let h0 = (0..n).find(|x| !bad(*x)).unwrap();
    if p.forge {
        seed_rng("forge2");
        let sid = |d: usize| w.sids[d].clone();
        // f about itself
        let own = w.good(f, f).sec_share;
        for (id, share, s) in [
            ("wrong share of f about itself", MShare { i: f, v: own.v.clone() + sc::<X>(1) }, sid(f)),
            ("right share of f about itself, other session", own.clone(), sid(h0)),
            ("share of f under another index", MShare { i: (f + 1) % n, v: own.v.clone() }, sid(f)),
            ("share of f with a huge index", MShare { i: usize::MAX, v: own.v.clone() }, sid(f)),
        ] {
            let m = X::sign_rc(&MRc { session_id: s, index: f as u32, dealer_index: f as u32, share, signature: vec![] }, &w.keys[f]);
            ev.push(E2 { id: format!("forged: {id}"), b: B2::Rc { d: f, m, honest: false }, after_mine: false });
        }
        // f in the name of others
        for v in (0..n).filter(|v| *v != f) {
            let m = X::sign_rc(&MRc { session_id: sid(f), index: v as u32, dealer_index: f as u32, share: MShare { i: v, v: sc::<X>(7) }, signature: vec![] }, &w.keys[f]);
            ev.push(E2 { id: format!("forged: share in the name of {v}"), b: B2::Rc { d: f, m, honest: false }, after_mine: false });
        }
        for d in (0..n).filter(|d| *d != f) {
            // about honest dealers
            let sh = w.good(d, f).sec_share;
            for (id, v) in [("true", sh.v.clone()), ("wrong", sh.v.clone() + sc::<X>(3))] {
                let m = X::sign_rc(&MRc { session_id: sid(d), index: f as u32, dealer_index: d as u32, share: MShare { i: f, v }, signature: vec![] }, &w.keys[f]);
                ev.push(E2 { id: format!("forged: {id} share of f about honest {d}"), b: B2::Rc { d, m, honest: false }, after_mine: false });
            }
            let gd = w.good(d, f);
            let mut wrong = gd.clone();
            wrong.sec_share.v = wrong.sec_share.v + sc::<X>(1);
            // consistent in itself, for another polynomial
            let mut alien = w2.good(d, f);
            alien.session_id = sid(d);
            let mut hybrid = w2.good(d, f);
            hybrid.commitments = gd.commitments.clone();
            hybrid.session_id = sid(d);
            for (id, m) in [("its true deal", gd.clone()), ("a wrong share", wrong), ("a deal of another sharing", w2.good(d, f)), ("a deal of another sharing under this session", alien), ("a foreign share under the true commitments", hybrid)] {
                let m = X::sign_cc(&MCc { index: f as u32, dealer_index: d as u32, deal: m, signature: vec![] }, &w.keys[f]);
                ev.push(E2 { id: format!("forged: complaint of f about honest {d} with {id}"), b: B2::Cc { d, m, honest: false }, after_mine: false });
            }
            // false commitments in the name of d
            let mut m = false_sc::<X>(w, d, "constant+1").unwrap();
            m = X::sign_sc(&m, &w.keys[f]);
            if d != me {
                ev.push(E2 { id: format!("forged: commitments in the name of {d}"), b: B2::Sc { d, m, forged: true }, after_mine: false });
            }
            // genuine commitments of another run of d, presented as this one
            if d != me {
                let mut m2 = false_sc::<X>(w2, d, "true").unwrap();
                ev.push(E2 { id: format!("forged: commitments of {d} of another run"), b: B2::Sc { d, m: m2.clone(), forged: true }, after_mine: false });
                m2.session_id = sid(d);
                ev.push(E2 { id: format!("forged: commitments of {d} of another run, session replaced"), b: B2::Sc { d, m: m2, forged: true }, after_mine: false });
            }
        }
        for (id, d) in [("unknown dealer", n as u32), ("dealer 2^32-1", u32::MAX)] {
            let m = X::sign_rc(&MRc { session_id: sid(f), index: f as u32, dealer_index: d, share: own.clone(), signature: vec![] }, &w.keys[f]);
            ev.push(E2 { id: format!("forged: share about {id}"), b: B2::Rc { d: f, m, honest: false }, after_mine: false });
            let m = X::sign_cc(&MCc { index: f as u32, dealer_index: d, deal: w.good(f, f), signature: vec![] }, &w.keys[f]);
            ev.push(E2 { id: format!("forged: complaint about {id}"), b: B2::Cc { d: h0, m, honest: false }, after_mine: false });
        }
    }
    if let Some(c) = p.colluder {
        seed_rng("collude");
        let mut sh = w.good(f, c).sec_share;
        sh.v = sh.v + sc::<X>(1);
        let m = X::sign_rc(&MRc { session_id: w.sids[f].clone(), index: c as u32, dealer_index: f as u32, share: sh, signature: vec![] }, &w.keys[c]);
        ev.push(E2 { id: format!("wrong share revealed by colluder {c}"), b: B2::Rc { d: f, m, honest: false }, after_mine: false });
    }
    let holders = (0..n).filter(|v| !bad(*v) && usable(*v)).count();
    // false commitments that fit every honest share (there are fewer than t) define the dealer's polynomial
    if let (false, Some(m)) = (exposed, &fsc) {
        if holders < w.t {
            for (k, c) in false_poly::<X>(w, f, &p.kind).into_iter().enumerate().take(w.t) {
                truth[k] = truth[k].clone() + sub::<X>(&c, &w.polys[f][k]);
            }
            let ok = (0..w.t).all(|k| m.commitments.get(k) == false_poly::<X>(w, f, &p.kind).get(k).map(|c| pt::<X>(c)).as_ref());
            assert!(ok, "false polynomial of {}", p.label());
        }
    }
    let complete = qual.iter().all(|d| scs.contains_key(d));
    let live = qual.len() >= w.t && complete && (!exposed || holders >= w.t) && qual.contains(&me) && (usable(me) || !qual.contains(&f));
    Some(Scn2 { ev, start, qual, truth, exposed, live })
}

#[derive(Clone)]
struct N2<X: Rb> {
    g: X::G,
    /// events that were accepted
    done: BTreeSet<usize>,
    mine: Option<Cc<X>>,
}

#[derive(Debug, Clone, PartialEq)]
enum R2 {
    Ok,
    Complaint,
    Err(String),
}

fn apply2<X: Rb>(g: &mut X::G, b: &B2<X>, mine: &mut Option<Cc<X>>) -> Result<R2, String> {
    seed_rng("p2");
    guard(|| match b {
        B2::Publish => X::secret_commits(g).map(|_| R2::Ok).unwrap_or_else(R2::Err),
        B2::Sc { m, .. } => match X::on_sc(g, m) {
            Ok(None) => R2::Ok,
            Ok(Some(c)) => {
                *mine = Some(c);
                R2::Complaint
            }
            Err(e) => R2::Err(e),
        },
        B2::Cc { m, .. } => X::on_cc(g, m).map(|_| R2::Ok).unwrap_or_else(R2::Err),
        B2::Rc { m, .. } => X::on_rc(g, m).map(|_| R2::Ok).unwrap_or_else(R2::Err),
        B2::OwnCc => {
            let c = mine.clone().expect("own complaint");
            X::on_cc(g, &c).map(|_| R2::Ok).unwrap_or_else(R2::Err)
        }
    })
}

pub fn explore2<X: Rb>(ctx: &Ctx, w: &RWorld<X>, p: &Plan2, s: &Scn2<X>, me: usize, pubs: &Mutex<BTreeSet<Vec<u8>>>, paths: &mut Vec<Vec<usize>>, keep: usize) {
    let case = |path: &[usize], ev: &str| json!({"engine": X::NAME, "phase": 2, "scenario": p.label(), "observed": me, "qual": s.qual, "history": path.iter().map(|k| s.ev[*k].id.clone()).collect::<Vec<_>>(), "event": ev});
    let f = p.faulty;
    let commits: Vec<RP<X>> = s.truth.iter().map(|c| pt::<X>(c)).collect();
    let share = horner(&s.truth, sc::<X>(me as i64 + 1), sc::<X>(0));
    let sfx = if p.colluder.is_some() { "-by-colluding-verifier" } else { "" };
    let is_done = |st: &N2<X>, pr: &dyn Fn(&B2<X>) -> bool| s.ev.iter().enumerate().any(|(k, e)| pr(&e.b) && st.done.contains(&k));
    let twins = crate::p_save::Twins::new(X::NAME);
    let obs = |g: &X::G| format!("{:?}", guard(|| (X::qual(g), X::certified(g), X::finished(g), X::key(g).map(|k| (k.share, k.commits.iter().map(|c| kyber_rs::encoding::BinaryMarshaler::marshal_binary(c).ok()).collect::<Vec<_>>())).map_err(|_| "no key"))));
    if ctx.restoring() {
        for e in &s.ev {
            match &e.b {
                B2::Sc { m, .. } => X::round_sc(ctx, m),
                B2::Cc { m, .. } => X::round_cc(ctx, m),
                B2::Rc { m, .. } => X::round_rc(ctx, m),
                _ => {}
            }
        }
    }
    let mut cnt = 0;
    let mut lpaths: Vec<Vec<usize>> = vec![];
    let enabled = |st: &N2<X>, k: usize| !(s.ev[k].after_mine && st.mine.is_none());
    // honest events that have not been accepted yet
    let honest = |b: &B2<X>| matches!(b, B2::Publish | B2::OwnCc | B2::Sc { forged: false, .. } | B2::Cc { honest: true, .. } | B2::Rc { honest: true, .. });
    let (ns, nt, complete) = bfs(
        vec![N2::<X> { g: s.start.clone(), done: BTreeSet::new(), mine: None }],
        ctx.pick(300_000, 3_000_000),
        |st| (canon(&st.g), st.done.clone(), st.mine.is_some()),
        |st, path| {
            cnt += 1;
            ctx.eval();
            // false commitments that fit the own share look right until somebody complains
            let heard = is_done(st, &|b| matches!(b, B2::Cc { d, honest: true, .. } if *d == f) || matches!(b, B2::OwnCc));
            let fsc = is_done(st, &|b| matches!(b, B2::Sc { d, forged: false, .. } if *d == f));
            let deceived = s.exposed && fsc && !heard && st.mine.is_none();
            match guard(|| (X::finished(&st.g), X::key(&st.g))) {
                Err(e) => ctx.fail("panic", e, case(path, "dist_key_share")),
                Ok((fin, key)) => {
                    if let Ok(k) = &key {
                        if !deceived {
                            let ok = k.commits == commits && k.share.v == share && k.share.i == me;
                            ctx.check(ok, &format!("wrong-key{sfx}"), "a released key must be the sum of the qualified dealers' polynomials, with the matching share", || case(path, "dist_key_share"));
                            if p.colluder.is_none() {
                                pubs.lock().unwrap().insert(serde_json::to_vec(&k.commits).unwrap());
                            }
                        }
                        ctx.nontriv();
                    }
                    ctx.check(fin == key.is_ok(), "finished-wrong", "finished exactly when the key can be released", || case(path, &format!("finished {fin}, key {:?}", key.as_ref().err())));
                    ctx.outcome(if key.is_ok() { "key" } else { "no key yet" });
                }
            }
            if keep > 0 && cnt % keep == 0 {
                lpaths.push(path.to_vec());
            }
        },
        |st, path| {
            let mut out: Vec<(usize, N2<X>)> = vec![];
            let base = st.g.clone();
            let before = canon(&st.g);
            let mut quiet = true;
            for k in 0..s.ev.len() {
                if !enabled(st, k) {
                    continue;
                }
                let mut x = N2::<X> { g: base.clone(), done: st.done.clone(), mine: st.mine.clone() };
                let r = apply2::<X>(&mut x.g, &s.ev[k].b, &mut x.mine);
                if ctx.restoring() {
                    let after = (r.clone(), x.mine.as_ref().map(|c| twins.fp(c)));
                    twins.step(ctx, path, k, &st.g, &x.g, &after, &|h: &mut X::G| { let mut mine = st.mine.clone(); let r = apply2::<X>(h, &s.ev[k].b, &mut mine); (r, mine.as_ref().map(|c| twins.fp(c))) }, &obs, &|| case(path, &s.ev[k].id));
                    if let Some(c) = &x.mine {
                        X::round_cc(ctx, c);
                    }
                }
                let r = match r {
                    Err(e) => {
                        ctx.fail("panic", e, case(path, &s.ev[k].id));
                        continue;
                    }
                    Ok(r) => r,
                };
                match &s.ev[k].b {
                    B2::Sc { forged: true, .. } => {
                        ctx.check(matches!(r, R2::Err(_)), "forged-commitments-accepted", "commitments that are not the dealer's for this run must be refused", || case(path, &format!("{}: {r:?}", s.ev[k].id)));
                    }
                    B2::Sc { d, .. } if *d != f => {
                        ctx.check(r == R2::Ok || st.done.contains(&k), "honest-commitments-refused", "an honest dealer's commitments must be accepted", || case(path, &format!("{}: {r:?}", s.ev[k].id)));
                        ctx.check(r != R2::Complaint, "honest-dealer-accused", "an honest dealer must not be complained about", || case(path, &s.ev[k].id));
                    }
                    B2::Cc { honest: false, .. } => {
                        ctx.check(matches!(r, R2::Err(_)), "false-complaint-accepted", "a complaint against an honest dealer must be refused", || case(path, &s.ev[k].id));
                    }
                    _ => {}
                }
                let ok = !matches!(r, R2::Err(_));
                let changed = canon(&x.g) != before || x.mine.is_some() != st.mine.is_some();
                if ok && honest(&s.ev[k].b) {
                    x.done.insert(k);
                }
                if changed && honest(&s.ev[k].b) {
                    quiet = false;
                }
                if changed || x.done != st.done {
                    out.push((k, x));
                }
            }
            // nothing an honest node still sends makes a difference: the run is over
            if quiet {
                let key = guard(|| X::key(&st.g)).unwrap_or_else(|e| Err(e));
                if s.live {
                    ctx.check(key.is_ok(), &format!("not-finished{sfx}"), "every honest node must end with the key", || case(path, &format!("{:?}", key.as_ref().err())));
                }
                ctx.outcome(if key.is_ok() { "run ends with key" } else { "run ends without key" });
            }
            out
        },
    );
    paths.extend(lpaths);
    ctx.st(ns);
    ctx.tr(nt);
    if std::env::var("MC_DEV").is_ok() {
        eprintln!("{ns} {nt} ev {} {} me {me}", s.ev.len(), p.label());
    }
    if !complete {
        ctx.fail("state-bound", "state space not closed within the bound", case(&[], ""));
    }
}

fn replay2<X: Rb, Y: Rb>(ctx: &Ctx, p: &Plan2, a: &Scn2<X>, b: &Scn2<Y>, me: usize, paths: &[Vec<usize>]) {
    for pa in paths {
        let (mut ga, mut gb) = (a.start.clone(), b.start.clone());
        let (mut ma, mut mb) = (None, None);
        let mut same = true;
        for k in pa {
            let kind = |r: Result<R2, String>| r.ok().map(|r| match r { R2::Err(_) => 0, R2::Ok => 1, R2::Complaint => 2 });
            let (ra, rb_) = (kind(apply2::<X>(&mut ga, &a.ev[*k].b, &mut ma)), kind(apply2::<Y>(&mut gb, &b.ev[*k].b, &mut mb)));
            let (sa, sb) = (guard(|| (X::finished(&ga), X::key(&ga).is_ok())).ok(), guard(|| (Y::finished(&gb), Y::key(&gb).is_ok())).ok());
            if a.ev[*k].id != b.ev[*k].id || ra != rb_ || sa != sb {
                ctx.fail("suites-disagree", format!("{} differs between {} and {}: {ra:?} {sa:?} / {rb_:?} {sb:?}", a.ev[*k].id, X::NAME, Y::NAME), json!({"scenario": p.label(), "observed": me, "history": pa.iter().map(|i| a.ev[*i].id.clone()).collect::<Vec<_>>()}));
                same = false;
                break;
            }
        }
        if same {
            if let Ok(Ok(k)) = guard(|| Y::key(&gb)) {
                let full = b.ev.len();
                let _ = full;
                ctx.check(k.share.i == me, "share-index", "the share is the node's own", || json!({"scenario": p.label(), "observed": me}));
            }
            ctx.trace(1);
        }
    }
}

pub fn run2<X: Rb, Y: Rb>(ctx: &Ctx, plans: &[Plan2], keep: usize) {
    let mut worlds: HashMap<(usize, usize), (RWorld<X>, RWorld<X>, RWorld<Y>, RWorld<Y>)> = HashMap::new();
    for p in plans {
        worlds.entry((p.n, p.t)).or_insert_with(|| (RWorld::build(p.n, p.t, 1), RWorld::build(p.n, p.t, 2), RWorld::build(p.n, p.t, 1), RWorld::build(p.n, p.t, 2)));
    }
    par_items(plans, |p| {
        let (w, w2, y, y2) = &worlds[&(p.n, p.t)];
        let keys = Mutex::new(BTreeSet::new());
        for me in (0..p.n).filter(|m| *m != p.faulty && Some(*m) != p.colluder) {
            let Some(s) = scenario2::<X>(ctx, w, w2, p, me) else { continue };
            let mut paths = vec![];
            explore2::<X>(ctx, w, p, &s, me, &keys, &mut paths, keep);
            if keep > 0 {
                if let Some(b) = scenario2::<Y>(ctx, y, y2, p, me) {
                    replay2::<X, Y>(ctx, p, &s, &b, me, &paths);
                }
            }
        }
        let k = keys.into_inner().unwrap();
        ctx.check(k.len() <= 1, "disagreement", "all honest nodes must release the same public polynomial", || json!({"engine": X::NAME, "scenario": p.label(), "keys": k.len()}));
    });
    // any t shares give the secret
    for ((n, t), (w, ..)) in &worlds {
        let q: Vec<usize> = (0..*n).collect();
        let co = w.truth(&q);
        for sub in subsets(*n, *t) {
            let sh: Vec<MShare<RS<X>>> = sub.iter().map(|i| MShare { i: *i, v: horner(&co, sc::<X>(*i as i64 + 1), sc::<X>(0)) }).collect();
            let r = guard(|| <X::K as Dk>::recover(&sh, *t, *n));
            ctx.check(matches!(&r, Ok(Ok(x)) if *x == co[0]), "reconstruction", "any t shares must give the secret key", || json!({"engine": X::NAME, "n": n, "t": t, "holders": sub}));
        }
    }
}

fn plans2(ctx: &Ctx) -> Vec<Plan2> {
    let mut v = vec![];
    let mut add = |n: usize, t: usize, faulty: usize, p1: P1, timeout: bool, kind: &str, forge: bool, colluder: Option<usize>| v.push(Plan2 { n, t, faulty, p1, timeout, kind: kind.into(), forge, colluder });
    for (n, t) in ctx.pick(vec![(2, 2), (3, 2), (3, 3), (4, 2), (4, 3)], vec![(2, 2), (3, 2), (3, 3), (4, 2), (4, 3), (4, 4), (5, 3)]) {
        for f in 0..n {
            if n >= 4 && !ctx.thorough() && f != 0 && f != n - 1 {
                continue;
            }
            let hon: Vec<usize> = (0..n).filter(|x| *x != f).collect();
            let mut kinds: Vec<String> = ["true", "none", "constant+1", "last+1", "zero", "blinded", "another's", "empty", "short", "long-true", "long-fits-all"].iter().map(|s| s.to_string()).collect();
            for k in 1..t {
                for s in subsets(hon.len(), k) {
                    kinds.push(format!("fits {}", s.iter().map(|i| hon[*i].to_string()).collect::<Vec<_>>().join(",")));
                }
            }
            let good = P1 { faulty: Some(f), just: "good".into(), resp: "ok".into(), ..Default::default() };
            for k in &kinds {
                // forged material multiplies the state space: for the larger runs with few kinds
                let forge = n <= 3 || k == "true" || k == "constant+1";
                add(n, t, f, good.clone(), false, k, forge && n <= 3, None);
                if forge && n > 3 {
                    add(n, t, f, good.clone(), false, k, true, None);
                }
            }
            if n >= 3 {
                // what happened in phase 1
                for (j, kind) in [("good", "share+1"), ("good", "rnd+1"), ("none", "share+1"), ("wrong", "share+1")] {
                    for h in &hon {
                        let mut p = good.clone();
                        p.just = j.into();
                        p.kinds.insert(*h, kind.into());
                        for k in ["true", "constant+1", &format!("fits {h}")] {
                            add(n, t, f, p.clone(), false, k, false, None);
                        }
                    }
                }
                for resp in ["none", "complaint"] {
                    let mut p = good.clone();
                    p.resp = resp.into();
                    for k in ["true", "constant+1", &format!("fits {}", hon[0])] {
                        add(n, t, f, p.clone(), true, k, false, None);
                    }
                }
                // dealers out of the qualified set
                let mut p = good.clone();
                p.just = "none".into();
                for h in &hon {
                    p.kinds.insert(*h, "missing".into());
                }
                add(n, t, f, p.clone(), true, "true", n == 3, None);
                for h in &hon {
                    p.kinds.insert(*h, "share+1".into());
                }
                add(n, t, f, p, true, "true", n == 3, None);
            }
        }
    }
    // a second faulty node that reveals a wrong share
    for f in [0usize, 4] {
        let c = (f + 2) % 5;
        let good = P1 { faulty: Some(f), just: "good".into(), resp: "ok".into(), ..Default::default() };
        add(5, 3, f, good.clone(), false, "constant+1", false, Some(c));
    }
    v
}

/// keys from complete runs, for signing: all honest, or with a dealer whose false commitments are replaced
/// by its reconstructed polynomial
pub fn keys_of_run<X: Rb>(n: usize, t: usize, seed: u64, exposed: Option<usize>) -> Result<(RWorld<X>, Vec<RKey<X>>), String> {
    let w = RWorld::<X>::build(n, t, seed);
    let nodes = after_phase1(&w, &w, &P1::default(), false)?;
    let mut gs: Vec<X::G> = nodes.into_iter().map(|x| x.unwrap()).collect();
    let mut scs = vec![];
    for (i, g) in gs.iter_mut().enumerate() {
        let m = X::secret_commits(g)?;
        scs.push(if exposed == Some(i) { false_sc::<X>(&w, i, "constant+1").unwrap() } else { m });
    }
    let mut ccs = vec![];
    for (i, g) in gs.iter_mut().enumerate() {
        for (d, m) in scs.iter().enumerate() {
            if d != i {
                ccs.extend(X::on_sc(g, m)?);
            }
        }
    }
    if exposed.is_some() {
        let mut rcs = vec![];
        for (i, g) in gs.iter_mut().enumerate() {
            if Some(i) != exposed {
                rcs.push(X::on_cc(g, ccs.first().ok_or("no complaint")?)?);
            }
        }
        for (i, g) in gs.iter_mut().enumerate() {
            if Some(i) != exposed {
                for r in &rcs {
                    X::on_rc(g, r)?;
                }
            }
        }
    }
    let mut out = vec![];
    for g in &gs {
        out.push(X::key(g)?);
    }
    Ok((w, out))
}

/// Complete runs with many participants: every direction and rotation, without and with a node that is silent from
/// the start, without and with a node whose false publication leads to the reconstruction of its polynomial.
fn many<X: Rb>(ctx: &Ctx, n: usize, t: usize) {
    let w = RWorld::<X>::build(n, t, 7);
    let mut runs: Vec<(usize, bool, Option<usize>, Option<usize>)> = vec![];
    let some = [0, n / 2, n - 1];
    for r in if ctx.thorough() { (0..n).collect::<Vec<_>>() } else { vec![0, 1, n - 1] } {
        for back in [false, true] {
            runs.push((r, back, None, None));
            for f in some {
                if n > t {
                    runs.push((r, back, None, Some(f)));
                }
                if r == 0 || ctx.thorough() {
                    // the timeout turns the silence into a complaint about every other dealer
                    if n > t && t > 1 {
                        runs.push((r, back, Some(f), None));
                    }
                    if n > t + 1 {
                        runs.push((r, back, Some(f), Some((f + 1) % n)));
                    }
                }
            }
        }
    }
    par_items(&runs, |(r, back, silent, exposed)| {
        let case = || json!({"engine": X::NAME, "n": n, "t": t, "first": r, "backwards": back, "silent": silent, "false publication": exposed});
        let mut order: Vec<usize> = (0..n).map(|i| (i + r) % n).collect();
        if *back {
            order.reverse();
        }
        order.retain(|i| Some(*i) != *silent);
        let qual: Vec<usize> = (0..n).filter(|i| Some(*i) != *silent).collect();
        let mut gs = w.nodes.clone();
        let go = |gs: &mut Vec<X::G>| -> Result<(), String> {
            ctx.eval();
            let mut rs = vec![];
            for d in &order {
                for h in order.iter().filter(|h| *h != d) {
                    let m = X::on_deal(&mut gs[*h], &w.deals[*d][h]).map_err(|e| format!("deal {d} for {h}: {e}"))?;
                    rs.push((*h, m));
                    ctx.tr(1);
                }
            }
            for (k, (v, m)) in rs.iter().enumerate() {
                for h in order.iter().filter(|h| *h != v) {
                    ctx.check(X::key(&gs[*h]).is_err(), "key-early", "a share is released before the secret commitments are known", case);
                    X::on_resp(&mut gs[*h], m).map_err(|e| format!("response {k} at {h}: {e}"))?;
                    ctx.tr(1);
                }
            }
            for h in &order {
                if silent.is_some() {
                    ctx.check(X::qual(&gs[*h]).is_empty() && !X::certified(&gs[*h]), "certified-early", "a dealer is qualified although one answer is outstanding", || { let mut c = case(); c["observed"] = json!(h); c });
                    X::timeout(&mut gs[*h]);
                }
                let mut q = X::qual(&gs[*h]);
                q.sort();
                ctx.check(q == qual && X::certified(&gs[*h]), "qual", "exactly the dealers whose deals everybody approved are qualified", || { let mut c = case(); c["observed"] = json!(h); c["qual"] = json!(q); c });
                for i in 0..n {
                    ctx.check(X::is_in_qual(&gs[*h], i as u32) == qual.contains(&i), "is-in-qual", "membership of the qualified set", case);
                }
            }
            let mut scs = vec![];
            for d in &order {
                let m = X::secret_commits(&mut gs[*d]).map_err(|e| format!("commitments of {d}: {e}"))?;
                scs.push(if *exposed == Some(*d) { false_sc::<X>(&w, *d, "constant+1").unwrap() } else { m });
            }
            let mut ccs = vec![];
            for (k, m) in scs.iter().enumerate() {
                for h in order.iter().filter(|h| **h != order[k]) {
                    ctx.check(X::key(&gs[*h]).is_err(), "key-early", "a share is released before all secret commitments are known", case);
                    let c = X::on_sc(&mut gs[*h], m).map_err(|e| format!("commitments of {} at {h}: {e}", order[k]))?;
                    ctx.check(c.is_some() == (*exposed == Some(order[k])), "complaint", "exactly the false publication is complained about", || { let mut c = case(); c["observed"] = json!(h); c });
                    ccs.extend(c);
                    ctx.tr(1);
                }
            }
            if let Some(f) = exposed {
                let cc = ccs.last().ok_or("no complaint")?;
                let mut rcs = vec![];
                let rest: Vec<usize> = order.iter().filter(|h| *h != f).cloned().collect();
                for h in &rest {
                    ctx.check(X::key(&gs[*h]).is_err(), "key-early", "a share is released although a polynomial must be reconstructed", case);
                    rcs.push((*h, X::on_cc(&mut gs[*h], cc).map_err(|e| format!("complaint at {h}: {e}"))?));
                }
                for (v, m) in rcs.iter() {
                    for h in rest.iter().filter(|h| *h != v) {
                        let _ = X::on_rc(&mut gs[*h], m);
                        ctx.tr(1);
                    }
                }
            }
            let truth = w.truth(&qual);
            let mut shares = vec![];
            for h in order.iter().filter(|h| **h != exposed.unwrap_or(n)) {
                let k = X::key(&gs[*h]).map_err(|e| format!("no share at {h}: {e}"))?;
                let c: Vec<RP<X>> = truth.iter().map(|c| pt::<X>(c)).collect();
                let v = crate::p_dkg::horner(&truth, sc::<X>(*h as i64 + 1), sc::<X>(0));
                ctx.check(k.commits == c && k.share.i == *h && k.share.v == v, "wrong-key", "the key is the sum of the contributions of exactly the qualified dealers", || { let mut c = case(); c["observed"] = json!(h); c });
                ctx.check(X::finished(&gs[*h]), "finished", "a node that holds its share has finished", case);
                shares.push(k.share);
            }
            ctx.check(interpolate::<X>(&shares[shares.len() - t..])[0] == truth[0], "reconstruction", "t shares give the discrete logarithm of the public key", case);
            ctx.nontriv();
            ctx.st(1);
            Ok(())
        };
        match guard(|| go(&mut gs)) {
            Ok(Ok(())) => ctx.outcome("key"),
            Ok(Err(e)) => ctx.fail("run-failed", e, case()),
            Err(p) => ctx.fail("panic-run", p, case()),
        }
    });
}

pub fn c20(ctx: &Ctx) -> i32 {
    let p1 = plans1(ctx);
    let p2 = plans2(ctx);
    ctx.extra("phase 1 scenarios", json!(p1.len()));
    ctx.extra("phase 2 scenarios", json!(p2.len()));
    let dev = std::env::var("MC_DEV").unwrap_or_default();
    if dev != "2" {
    run1::<RbToy, RbEd>(ctx, &p1, ctx.pick(61, 61));
    }
    if dev != "1" {
    run2::<RbToy, RbEd>(ctx, &p2, ctx.pick(61, 61));
    }
    for (n, t) in ctx.pick(vec![(9, 5), (11, 2), (12, 7), (11, 11)], vec![(9, 5), (11, 2), (11, 10), (12, 7), (11, 11), (17, 9), (24, 13)]) {
        many::<RbToy>(ctx, n, t);
    }
    for (n, t, f, b) in ctx.pick(vec![(4, 3, 1, Some(2)), (3, 2, 2, None)], vec![(4, 3, 1, Some(2)), (4, 2, 0, Some(3)), (3, 2, 2, None), (3, 2, 0, Some(1)), (5, 3, 2, Some(4))]) {
        crate::p_tamper::rabin::<RbToy>(ctx, n, t, f, b);
    }
    crate::p_tamper::rabin::<RbEd>(ctx, 3, 2, 1, None);
    ctx.bound("up to 12 (thorough 24) participants: complete runs in both directions and rotated, with a silent node, with a reconstructed one, with both");
    ctx.bound("phase 1: n=2,3, every t, honest runs and every single faulty node (pairs of deal kinds, justification and response behaviour): every order, loss, repetition and point of the timeout at every honest node");
    ctx.bound("phase 2: n<=4 (thorough 5), every kind of false publication (including every one that fits a subset of the honest nodes), every order with repetition and redelivery at every honest node, forged complaints, shares and commitments");
    0
}

/// the explorations of C29 (save and restore)
pub fn c29(ctx: &Ctx) {
    let mut v = vec![];
    for (n, t) in [(2, 2), (3, 2), (3, 3)] {
        v.push(Plan1 { n, t, p: P1::default(), bad: false, replay: false });
    }
    for a in ["share+1", "missing", "other-polynomial", "sid-garbage", "rnd+1"] {
        for js in ["good", "wrong", "none"] {
            for r in ["ok", "complaint", "none"] {
                if r != "ok" && a != "share+1" && !ctx.thorough() {
                    continue;
                }
                let mut p = P1 { faulty: Some(2), just: js.into(), resp: r.into(), ..Default::default() };
                p.kinds.insert(0, a.to_string());
                v.push(Plan1 { n: 3, t: 2, p, bad: false, replay: false });
            }
        }
    }
    run1::<RbToy, RbEd>(ctx, &v, 0);
    run1::<RbEd, RbToy>(ctx, &[Plan1 { n: 2, t: 2, p: P1::default(), bad: false, replay: false }], 0);
    let mut v = vec![];
    for (n, t) in [(2, 2), (3, 2), (3, 3)] {
        for f in if ctx.thorough() { (0..n).collect() } else { vec![0, n - 1] } {
            for k in ["true", "none", "constant+1", "short", "long-true", "fits 1"] {
                if k == "fits 1" && (f == 1 || n == 2) {
                    continue;
                }
                v.push(Plan2 { n, t, faulty: f, p1: P1 { faulty: Some(f), just: "good".into(), resp: "ok".into(), ..Default::default() }, timeout: false, kind: k.into(), forge: ctx.thorough() || n == 2, colluder: None });
            }
        }
    }
    run2::<RbToy, RbEd>(ctx, &v, 0);
    v.retain(|p| p.n == 2);
    for p in v.iter_mut() {
        p.forge = false;
    }
    run2::<RbEd, RbToy>(ctx, &v, 0);
}
