//! C17 / C18 / C19: Pedersen key generation and resharing. One observed node is the real code; all other
//! nodes are the environment (their messages are produced by the real code too). Every causally valid
//! delivery order, every loss (a prefix followed by the timeout) is explored to closure and compared with
//! a reference that follows the specification only.
use crate::engine::*;
use crate::p_vss::{canon, conv, MDeal, MShare};
use crate::toy::*;
use kyber_rs::group::edwards25519::{Point as EdPoint, Scalar as EdScalar, SuiteEd25519};
use kyber_rs::share::dkg::pedersen as pd;
use kyber_rs::share::dkg::pedersen::structs as ps;
use kyber_rs::share::vss::pedersen::vss;
use kyber_rs::encoding::BinaryMarshaler;
use kyber_rs::sign::schnorr;
use kyber_rs::{Group, Point, Scalar};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

/// deterministic entropy for `Config::reader`
#[derive(Clone, PartialEq, Eq, Debug, Default, Serialize, Deserialize)]
pub struct Rdr {
    pub seed: u64,
    pub ctr: u64,
}
impl std::io::Read for Rdr {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let mut h = blake3::Hasher::new();
        h.update(&self.seed.to_le_bytes());
        h.update(&self.ctr.to_le_bytes());
        self.ctr += 1;
        h.finalize_xof().fill(b);
        Ok(b.len())
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MKey<S, P> {
    pub commits: Vec<P>,
    pub share: MShare<S>,
    pub private_poly: Vec<S>,
}

#[derive(Clone)]
pub struct GCfg<S, P> {
    pub long: S,
    pub old: Vec<P>,
    pub new: Vec<P>,
    pub coeffs: Option<Vec<P>>,
    pub share: Option<MKey<S, P>>,
    pub t: usize,
    pub old_t: usize,
    pub seed: u64,
}

pub trait Dk: Clone + Sync + Send + 'static {
    const NAME: &'static str;
    type S: Scalar + Serialize + DeserializeOwned + std::fmt::Debug + PartialEq + Send + Sync + 'static;
    type P: Point<SCALAR = Self::S> + Serialize + DeserializeOwned + std::fmt::Debug + Send + Sync + 'static;
    type G: Clone + Serialize + DeserializeOwned + Send + Sync;
    fn same(a: &Self::G, b: &Self::G) -> bool;
    type Deal: Clone + Serialize + DeserializeOwned + Send + Sync;
    type J: Clone + Serialize + DeserializeOwned + Send + Sync;
    fn sc(v: i64) -> Self::S;
    fn pt(s: &Self::S) -> Self::P;
    fn padd(a: &Self::P, b: &Self::P) -> Self::P;
    fn pmul(s: &Self::S, p: &Self::P) -> Self::P;
    fn new(c: &GCfg<Self::S, Self::P>) -> Result<Self::G, String>;
    fn deals(g: &mut Self::G) -> Result<HashMap<usize, Self::Deal>, String>;
    fn on_deal(g: &mut Self::G, d: &Self::Deal) -> Result<ps::Response, String>;
    fn on_resp(g: &mut Self::G, r: &ps::Response) -> Result<Option<Self::J>, String>;
    fn on_just(g: &mut Self::G, j: &Self::J) -> Result<(), String>;
    fn timeout(g: &mut Self::G);
    fn certified(g: &Self::G) -> bool;
    fn thr_certified(g: &Self::G) -> bool;
    fn qual(g: &Self::G) -> Vec<usize>;
    fn is_in_qual(g: &Self::G, i: u32) -> bool;
    fn qshares(g: &Self::G) -> Vec<usize>;
    fn expected(g: &Self::G) -> usize;
    fn key(g: &Self::G) -> Result<MKey<Self::S, Self::P>, String>;
    fn coeffs(g: &Self::G) -> Vec<Self::S>;
    fn sid(g: &Self::G) -> Vec<u8>;
    fn plain(g: &mut Self::G, i: usize) -> MDeal<Self::S, Self::P>;
    /// deal of dealer g for holder `to` with arbitrary plaintext, encrypted and signed as g would
    fn craft_deal(g: &Self::G, from: u32, to: usize, m: &MDeal<Self::S, Self::P>) -> Self::Deal;
    fn craft_just(g: &Self::G, from: u32, r: &ps::Response, m: Option<&MDeal<Self::S, Self::P>>) -> Option<Self::J>;
    fn resp(d: u32, sid: &[u8], idx: u32, ok: bool, key: &Self::S) -> ps::Response;
    fn resign_deal(d: &Self::Deal, key: &Self::S) -> Self::Deal;
    fn save(g: &Self::G) -> Result<Vec<u8>, String>;
    fn load(b: &[u8]) -> Result<Self::G, String>;
    fn recover(shares: &[MShare<Self::S>], t: usize, n: usize) -> Result<Self::S, String>;
    fn renew(a: &MKey<Self::S, Self::P>, b: &MKey<Self::S, Self::P>) -> Result<MKey<Self::S, Self::P>, String>;
}

macro_rules! dk {
    ($t:ident, $name:expr, $suite:ty, $mk:expr, $sc:ty, $pt:ty) => {
        #[derive(Clone)]
        pub struct $t;
        impl Dk for $t {
            const NAME: &'static str = $name;
            type S = $sc;
            type P = $pt;
            type G = pd::DistKeyGenerator<$suite, Rdr>;
            type Deal = ps::Deal<$pt>;
            type J = ps::Justification<$suite>;
            fn same(a: &Self::G, b: &Self::G) -> bool {
                canon(a) == canon(b)
            }
            fn sc(v: i64) -> $sc {
                $mk.scalar().set_int64(v)
            }
            fn pt(s: &$sc) -> $pt {
                $mk.point().mul(s, None)
            }
            fn padd(a: &$pt, b: &$pt) -> $pt {
                $mk.point().add(a, b)
            }
            fn pmul(s: &$sc, p: &$pt) -> $pt {
                $mk.point().mul(s, Some(p))
            }
            fn new(c: &GCfg<$sc, $pt>) -> Result<Self::G, String> {
                pd::new_dist_key_handler(pd::Config {
                    suite: $mk,
                    longterm: c.long.clone(),
                    old_nodes: c.old.clone(),
                    public_coeffs: c.coeffs.clone(),
                    new_nodes: c.new.clone(),
                    share: c.share.as_ref().map(|k| conv(k)),
                    threshold: c.t,
                    old_threshold: c.old_t,
                    reader: Some(Rdr { seed: c.seed, ctr: 0 }),
                    user_reader_only: true,
                })
                .map_err(|e| format!("{e:?}"))
            }
            fn deals(g: &mut Self::G) -> Result<HashMap<usize, Self::Deal>, String> {
                g.deals().map_err(|e| format!("{e:?}"))
            }
            fn on_deal(g: &mut Self::G, d: &Self::Deal) -> Result<ps::Response, String> {
                g.process_deal(d).map_err(|e| format!("{e:?}"))
            }
            fn on_resp(g: &mut Self::G, r: &ps::Response) -> Result<Option<Self::J>, String> {
                g.process_response(r).map_err(|e| format!("{e:?}"))
            }
            fn on_just(g: &mut Self::G, j: &Self::J) -> Result<(), String> {
                g.process_justification(j).map_err(|e| format!("{e:?}"))
            }
            fn timeout(g: &mut Self::G) {
                g.set_timeout()
            }
            fn certified(g: &Self::G) -> bool {
                g.certified()
            }
            fn thr_certified(g: &Self::G) -> bool {
                g.threshold_certified()
            }
            fn qual(g: &Self::G) -> Vec<usize> {
                let mut q = g.qual();
                q.sort();
                q
            }
            fn is_in_qual(g: &Self::G, i: u32) -> bool {
                g.is_in_qual(i)
            }
            fn qshares(g: &Self::G) -> Vec<usize> {
                g.qualified_shares()
            }
            fn expected(g: &Self::G) -> usize {
                g.expected_deals()
            }
            fn key(g: &Self::G) -> Result<MKey<$sc, $pt>, String> {
                g.dist_key_share().map(|k| conv(&k)).map_err(|e| format!("{e:?}"))
            }
            fn coeffs(g: &Self::G) -> Vec<$sc> {
                g.dealer.private_poly().coefficients()
            }
            fn sid(g: &Self::G) -> Vec<u8> {
                g.dealer.session_id()
            }
            fn plain(g: &mut Self::G, i: usize) -> MDeal<$sc, $pt> {
                conv(g.dealer.plaintext_deal(i).expect("plain"))
            }
            fn craft_deal(g: &Self::G, from: u32, to: usize, m: &MDeal<$sc, $pt>) -> Self::Deal {
                let mut d = g.dealer.clone();
                *d.plaintext_deal(to).expect("plain") = conv(m);
                let e = d.encrypted_deal(to).expect("enc");
                let dd = ps::Deal { index: from, deal: e, signature: vec![] };
                Self::resign_deal(&dd, &g.long)
            }
            fn craft_just(g: &Self::G, from: u32, r: &ps::Response, m: Option<&MDeal<$sc, $pt>>) -> Option<Self::J> {
                let mut d = g.dealer.clone();
                if let Some(m) = m {
                    *d.plaintext_deal(r.response.index as usize).ok()? = conv(m);
                }
                let j = d.process_response(&r.response).ok()??;
                Some(ps::Justification { index: from, justification: j })
            }
            fn resp(d: u32, sid: &[u8], idx: u32, ok: bool, key: &$sc) -> ps::Response {
                let mut r = vss::Response { session_id: sid.to_vec(), index: idx, status: ok, signature: vec![] };
                r.signature = schnorr::sign(&$mk, key, &r.hash(&$mk).expect("hash")).expect("sign");
                ps::Response { index: d, response: r }
            }
            fn resign_deal(d: &Self::Deal, key: &$sc) -> Self::Deal {
                let mut d = d.clone();
                let b = d.marshal_binary().expect("marshal");
                d.signature = schnorr::sign(&$mk, key, &b).expect("sign");
                d
            }
            fn save(g: &Self::G) -> Result<Vec<u8>, String> {
                bincode::serialize(g).map_err(|e| e.to_string())
            }
            fn load(b: &[u8]) -> Result<Self::G, String> {
                bincode::deserialize(b).map_err(|e| e.to_string())
            }
            fn recover(shares: &[MShare<$sc>], t: usize, n: usize) -> Result<$sc, String> {
                let sh: Vec<Option<kyber_rs::share::poly::PriShare<$sc>>> =
                    shares.iter().map(|s| Some(kyber_rs::share::poly::PriShare { i: s.i, v: s.v.clone() })).collect();
                kyber_rs::share::poly::recover_secret($mk, &sh, t, n).map_err(|e| format!("{e:?}"))
            }
            fn renew(a: &MKey<$sc, $pt>, b: &MKey<$sc, $pt>) -> Result<MKey<$sc, $pt>, String> {
                let (a, b): (ps::DistKeyShare<$suite>, ps::DistKeyShare<$suite>) = (conv(a), conv(b));
                a.renew($mk, b).map(|k| conv(&k)).map_err(|e| format!("{e:?}"))
            }
        }
    };
}
dk!(DkToy, "toy", Toy<M61>, Toy::<M61>, TS<M61>, TP<M61>);
dk!(DkEd, "ed25519", SuiteEd25519, SuiteEd25519::new_blake3_sha256_ed25519(), EdScalar, EdPoint);

pub fn horner<S: Scalar>(c: &[S], x: S, zero: S) -> S {
    let mut r = zero;
    for k in c.iter().rev() {
        r = r * x.clone() + k.clone();
    }
    r
}
/// commitment of the polynomial at x
pub fn eval_commits<X: Dk>(c: &[X::P], x: i64) -> X::P {
    let mut r = X::pt(&X::sc(0));
    for k in c.iter().rev() {
        r = X::padd(&X::pmul(&X::sc(x), &r), k);
    }
    r
}

// ------------------------------------------------------------------------------------------------
// worlds

/// A run's participants. `old == None`: fresh key generation. Otherwise resharing between key sets.
pub struct DWorld<X: Dk> {
    pub keys: Vec<X::S>,
    pub pubs: Vec<X::P>,
    /// dealers, as indices into keys
    pub dealers: Vec<usize>,
    /// holders (new nodes), as indices into keys
    pub holders: Vec<usize>,
    pub t: usize,
    pub old_t: usize,
    pub fresh: bool,
    /// real node of every participating key, after it issued its deals
    pub nodes: BTreeMap<usize, X::G>,
    /// deals[d][h]
    pub deals: Vec<HashMap<usize, X::Deal>>,
    pub sids: Vec<Vec<u8>>,
    /// dealer polynomials
    pub polys: Vec<Vec<X::S>>,
    pub old_poly: Vec<X::S>,
    pub old_commits: Vec<X::P>,
    pub wrong: Vec<usize>,
}

impl<X: Dk> DWorld<X> {
    pub fn build(dealers: &[usize], holders: &[usize], t: usize, old_t: usize, fresh: bool, wrong: &[usize], seed: u64, extra: &[usize]) -> DWorld<X> {
        let nk = dealers.iter().chain(holders).chain(extra).max().unwrap() + 1;
        let keys: Vec<X::S> = (0..nk).map(|i| X::sc(31_337 + 104_729 * i as i64)).collect();
        let pubs: Vec<X::P> = keys.iter().map(|k| X::pt(k)).collect();
        let old_poly: Vec<X::S> = (0..old_t).map(|i| X::sc(900_000_011 + 77_777 * i as i64 + (seed / 100) as i64)).collect();
        let old_commits: Vec<X::P> = old_poly.iter().map(|c| X::pt(c)).collect();
        let dp: Vec<X::P> = dealers.iter().map(|d| pubs[*d].clone()).collect();
        let hp: Vec<X::P> = holders.iter().map(|d| pubs[*d].clone()).collect();
        let mut nodes = BTreeMap::new();
        let mut deals: Vec<HashMap<usize, X::Deal>> = dealers.iter().map(|_| HashMap::new()).collect();
        let mut sids = vec![vec![]; dealers.len()];
        let mut polys = vec![vec![]; dealers.len()];
        let mut part: Vec<usize> = dealers.iter().chain(holders).cloned().collect();
        part.sort();
        part.dedup();
        for k in part {
            let od = dealers.iter().position(|d| *d == k);
            let mut c = GCfg { long: keys[k].clone(), old: vec![], new: hp.clone(), coeffs: None, share: None, t, old_t: 0, seed: seed * 1000 + k as u64 };
            if !fresh {
                c.old = dp.clone();
                c.old_t = old_t;
                match od {
                    Some(i) => {
                        let mut v = horner(&old_poly, X::sc(i as i64 + 1), X::sc(0));
                        if wrong.contains(&i) {
                            v = v + X::sc(1);
                        }
                        c.share = Some(MKey { commits: old_commits.clone(), share: MShare { i, v }, private_poly: vec![] });
                    }
                    None => c.coeffs = Some(old_commits.clone()),
                }
            }
            seed_rng(&format!("node{k}-{seed}"));
            let mut g = X::new(&c).expect("node");
            if let Some(i) = od {
                polys[i] = X::coeffs(&g);
                sids[i] = X::sid(&g);
                seed_rng(&format!("deals{k}-{seed}"));
                deals[i] = X::deals(&mut g).expect("deals");
            }
            nodes.insert(k, g);
        }
        DWorld { keys, pubs, dealers: dealers.to_vec(), holders: holders.to_vec(), t, old_t, fresh, nodes, deals, sids, polys, old_poly, old_commits, wrong: wrong.to_vec() }
    }
    pub fn nh(&self) -> usize {
        self.holders.len()
    }
    pub fn nd(&self) -> usize {
        self.dealers.len()
    }
    pub fn dealer_node(&self, d: usize) -> &X::G {
        &self.nodes[&self.dealers[d]]
    }
    /// the share dealer d's polynomial gives to holder h
    pub fn good(&self, d: usize, h: usize) -> MDeal<X::S, X::P> {
        X::plain(&mut self.dealer_node(d).clone(), h)
    }
    /// position of a dealer among the holders, and conversely
    pub fn as_holder(&self, d: usize) -> Option<usize> {
        self.holders.iter().position(|h| *h == self.dealers[d])
    }
}

/// A deal as built by a (possibly faulty) dealer.
#[derive(Clone)]
pub struct DInfo<X: Dk> {
    pub name: String,
    /// never gets past decryption / authentication
    pub err: bool,
    pub content: bool,
    /// session of the content
    pub csid: Vec<u8>,
    pub declared_ok: bool,
    /// which polynomial (0 = the dealer's announced one)
    pub poly: u8,
    pub c0_wrong: bool,
    pub m: Option<MDeal<X::S, X::P>>,
}
#[derive(Clone)]
pub enum Body<X: Dk> {
    Deal { d: usize, i: DInfo<X>, m: X::Deal },
    Resp { d: usize, v: usize, ok: bool, sid: Vec<u8>, m: ps::Response },
    Just { d: usize, v: usize, i: DInfo<X>, sid: Vec<u8>, m: X::J },
    /// must be refused in every state, leaving the node as it was
    BadDeal(X::Deal),
    BadResp(ps::Response),
    BadJust(X::J),
    Timeout,
    /// several messages delivered together
    Block(Vec<usize>),
}
#[derive(Clone)]
pub struct Evt<X: Dk> {
    pub id: String,
    pub b: Body<X>,
    /// must have been delivered before
    pub req: Option<usize>,
    /// only part of blocks
    pub hidden: bool,
}

// ------------------------------------------------------------------------------------------------
// reference

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct DM {
    pub deal: Option<String>,
    pub usable: Option<String>,
    pub sid: Option<Vec<u8>>,
    pub poly: u8,
    pub resp: Vec<Option<(bool, Vec<u8>)>>,
    pub bad: bool,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct NM {
    pub d: Vec<DM>,
    pub timeout: bool,
}

pub struct Ref<'a, X: Dk> {
    pub w: &'a DWorld<X>,
    /// key index of the observed node
    pub me: usize,
    pub h: Option<usize>,
    pub o: Option<usize>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Out {
    Resp(bool),
    Just(usize),
    Ok,
    Err,
}

impl<'a, X: Dk> Ref<'a, X> {
    pub fn new(w: &'a DWorld<X>, me: usize) -> Self {
        Ref { w, me, h: w.holders.iter().position(|k| *k == me), o: w.dealers.iter().position(|k| *k == me) }
    }
    pub fn leaving(&self) -> bool {
        self.h.is_none()
    }
    pub fn init(&self) -> NM {
        let nh = self.w.nh();
        let mut d: Vec<DM> = (0..self.w.nd()).map(|_| DM { deal: None, usable: None, sid: None, poly: 0, resp: vec![None; nh], bad: false }).collect();
        if self.w.fresh {
            // own deal is processed when deals are issued
            let (o, h) = (self.o.unwrap(), self.h.unwrap());
            d[o].deal = Some("own".into());
            d[o].usable = Some("own".into());
            d[o].sid = Some(self.w.sids[o].clone());
            d[o].resp[h] = Some((true, self.w.sids[o].clone()));
        }
        NM { d, timeout: false }
    }
    pub fn step(&self, s: &mut NM, b: &Body<X>) -> Out {
        let nh = self.w.nh();
        match b {
            Body::BadDeal(_) | Body::BadResp(_) | Body::BadJust(_) => Out::Err,
            Body::Block(_) => Out::Ok,
            Body::Timeout => {
                s.timeout = true;
                Out::Ok
            }
            Body::Deal { d, i, .. } => {
                let Some(h) = self.h else { return Out::Err };
                let q = &mut s.d[*d];
                if i.err || q.deal.is_some() {
                    return Out::Err;
                }
                let mut ok = i.content && i.declared_ok;
                q.deal = Some(i.name.clone());
                q.sid = Some(i.csid.clone());
                q.poly = i.poly;
                for r in q.resp.iter_mut() {
                    if matches!(r, Some((_, sid)) if *sid != i.csid) {
                        *r = None;
                    }
                }
                if !self.w.fresh && i.c0_wrong {
                    ok = false;
                    q.bad = true;
                    if let Some(dh) = self.w.as_holder(*d) {
                        if q.resp[dh].is_none() && dh != h {
                            q.resp[dh] = Some((false, i.csid.clone()));
                        }
                    }
                }
                q.resp[h] = Some((ok, i.csid.clone()));
                if ok {
                    q.usable = Some(i.name.clone());
                }
                if self.w.fresh {
                    let dh = self.w.as_holder(*d).unwrap();
                    if q.resp[dh].is_none() {
                        q.resp[dh] = Some((true, i.csid.clone()));
                    }
                }
                Out::Resp(ok)
            }
            Body::Resp { d, v, ok, sid, .. } => {
                let own = self.o == Some(*d);
                let q = &mut s.d[*d];
                let known = if own { Some(self.w.sids[*d].clone()) } else { q.sid.clone() };
                let implied = self.w.fresh && self.w.as_holder(*d) == Some(*v);
                if matches!(&known, Some(k) if k != sid) || *v >= nh || implied || q.resp[*v].is_some() {
                    return Out::Err;
                }
                // a complaint about our own deal is answered with the share that was dealt
                q.resp[*v] = Some((*ok || own, sid.clone()));
                if self.w.fresh {
                    // the dealer does not answer its own deal
                    let dh = self.w.as_holder(*d).unwrap();
                    if q.resp[dh].is_none() {
                        q.resp[dh] = Some((true, known.unwrap_or_default()));
                    }
                }
                if own && !*ok {
                    Out::Just(*v)
                } else {
                    Out::Ok
                }
            }
            Body::Just { d, v, i, sid, .. } => {
                let q = &mut s.d[*d];
                let rsid = match &q.resp[*v] {
                    Some((false, x)) => x.clone(),
                    _ => return Out::Err,
                };
                if self.leaving() && i.c0_wrong {
                    return Out::Err;
                }
                if *sid != rsid {
                    return Out::Err;
                }
                let mut good = i.content && i.declared_ok && i.csid == rsid;
                if let Some(k) = &q.sid {
                    good &= *k == i.csid;
                }
                if !good {
                    q.bad = true;
                    return Out::Err;
                }
                q.resp[*v] = Some((true, rsid));
                if self.h == Some(*v) {
                    q.usable = Some(i.name.clone());
                }
                Out::Ok
            }
        }
    }
    pub fn dealer_certified(&self, s: &NM, d: usize) -> bool {
        let q = &s.d[d];
        let n = self.w.nh();
        let ok = q.resp.iter().filter(|r| matches!(r, Some((true, _)))).count();
        let absent = q.resp.iter().filter(|r| r.is_none()).count();
        !q.bad && ok >= self.w.t && ok + absent == n && (absent == 0 || (s.timeout && absent <= n - self.w.t))
    }
    pub fn qual(&self, s: &NM) -> Vec<usize> {
        (0..self.w.nd()).filter(|d| self.dealer_certified(s, *d)).collect()
    }
    pub fn complete(&self, s: &NM) -> bool {
        self.qual(s).len() >= if self.w.fresh { self.w.t } else { self.w.old_t }
    }
    pub fn certified(&self, s: &NM) -> bool {
        (0..self.w.nd()).all(|d| self.dealer_certified(s, d) && s.d[d].resp.iter().all(|r| r.is_some()))
    }
    /// is a share expected
    pub fn keyed(&self, s: &NM) -> bool {
        self.h.is_some() && self.complete(s) && self.qual(s).iter().all(|d| s.d[*d].deal.is_some())
    }
    /// the documented rules: a deal with an unjustified complaint, or that nobody answered, is not looked at;
    /// a holder that did not answer one of the other deals is not counted
    pub fn holders_ok(&self, s: &NM) -> Vec<usize> {
        let look = |d: &&DM| d.resp.iter().any(|r| r.is_some()) && !d.resp.iter().any(|r| matches!(r, Some((false, _))));
        (0..self.w.nh()).filter(|h| s.d.iter().filter(look).all(|d| d.resp[*h].is_some())).collect()
    }
}

// ------------------------------------------------------------------------------------------------
// exploration

pub struct Scn<'a, X: Dk> {
    pub label: String,
    pub w: &'a DWorld<X>,
    pub ev: Vec<Evt<X>>,
    /// second polynomial used by equivocating dealers, per dealer
    pub poly2: Vec<Vec<X::S>>,
    /// dealers that gave honest holders deals of different sessions
    pub equiv: Vec<bool>,
    /// only runs without loss are compared
    pub lossless: bool,
}

/// what one observer concluded with the timeout reached, by the set of broadcasts it saw
#[derive(Clone, PartialEq, Debug)]
pub struct Concl {
    pub me: usize,
    pub qual: Vec<usize>,
    pub keyed: bool,
    pub key: u128,
    pub events: Vec<String>,
    pub deals: Vec<Option<(Vec<u8>, bool)>>,
}

pub struct Res<S, P> {
    pub concl: Mutex<HashMap<Vec<String>, Vec<Concl>>>,
    /// final shares by key hash
    pub shares: Mutex<HashMap<u128, BTreeMap<usize, MKey<S, P>>>>,
}
impl<S, P> Res<S, P> {
    pub fn new() -> Self {
        Res { concl: Mutex::new(HashMap::new()), shares: Mutex::new(HashMap::new()) }
    }
}

pub struct Opt<'b> {
    /// messages injected in every state that must not panic, and must not change the state when refused
    pub mutants: Option<&'b (dyn Fn(usize) -> usize + Sync)>,
    pub max: usize,
    pub dup: bool,
}
impl Default for Opt<'_> {
    fn default() -> Self {
        Opt { mutants: None, max: 2_000_000, dup: true }
    }
}

pub fn apply<X: Dk>(g: &mut X::G, b: &Body<X>, label: &str) -> Result<(Option<bool>, Option<X::J>, bool, Option<ps::Response>), String> {
    seed_rng(label);
    guard(|| match b {
        Body::Deal { m, .. } | Body::BadDeal(m) => match X::on_deal(g, m) {
            Ok(r) => (Some(r.response.status), None, true, Some(r)),
            Err(_) => (None, None, false, None),
        },
        Body::Resp { m, .. } | Body::BadResp(m) => match X::on_resp(g, m) {
            Ok(j) => (None, j, true, None),
            Err(_) => (None, None, false, None),
        },
        Body::Just { m, .. } | Body::BadJust(m) => match X::on_just(g, m) {
            Ok(()) => (None, None, true, None),
            Err(_) => (None, None, false, None),
        },
        Body::Timeout => {
            X::timeout(g);
            (None, None, true, None)
        }
        Body::Block(_) => unreachable!(),
    })
}

/// expected key of an observer in model state s (fresh generation)
pub fn expect_key<X: Dk>(sc: &Scn<X>, r: &Ref<X>, s: &NM) -> (Vec<X::P>, X::S) {
    let mut co: Vec<X::S> = (0..sc.w.t).map(|_| X::sc(0)).collect();
    for d in r.qual(s) {
        let p = if s.d[d].poly == 0 { &sc.w.polys[d] } else { &sc.poly2[d] };
        for k in 0..sc.w.t {
            co[k] = co[k].clone() + p[k].clone();
        }
    }
    let v = horner(&co, X::sc(r.h.unwrap() as i64 + 1), X::sc(0));
    (co.iter().map(|c| X::pt(c)).collect(), v)
}

pub fn judge_state<X: Dk>(ctx: &Ctx, sc: &Scn<X>, r: &Ref<X>, s: &NM, g: &X::G, case: &dyn Fn() -> Value, memo: &mut HashMap<(usize, Vec<u8>), MKey<X::S, X::P>>) -> bool {
    let mut same = true;
    let mut fail = |k: &str, w: String| {
        same = false;
        ctx.fail(k, w, case());
    };
    ctx.eval();
    if s.d.iter().any(|d| d.deal.is_some()) {
        ctx.nontriv();
    }
    let q = r.qual(s);
    match guard(|| (X::qual(g), X::thr_certified(g), X::certified(g))) {
        Err(p) => fail("panic-status", p),
        Ok((gq, gt, gc)) => {
            if gq != q {
                fail("qual", format!("qual() = {gq:?}, must be {q:?}"));
            }
            if gt != r.complete(s) {
                fail("threshold-certified", format!("threshold_certified() = {gt}, must be {}", r.complete(s)));
            }
            if gc != r.certified(s) {
                fail("certified", format!("certified() = {gc}, must be {}", r.certified(s)));
            }
        }
    }
    if !r.leaving() {
        for d in 0..r.w.nd() {
            if guard(|| X::is_in_qual(g, d as u32)) != Ok(q.contains(&d)) {
                fail("is-in-qual", format!("is_in_qual({d}) must be {}", q.contains(&d)));
            }
        }
        {
            match guard(|| X::qshares(g)) {
                Err(p) => fail("panic-qualified-shares", p),
                Ok(v) => {
                    let want = r.holders_ok(s);
                    if v != want {
                        fail("qualified-shares", format!("qualified_shares() = {v:?}, must be {want:?}"));
                    }
                }
            }
        }
    }
    match guard(|| X::key(g)) {
        Err(p) => fail("panic-key", p),
        Ok(Err(e)) => {
            if r.keyed(s) {
                fail("no-key", format!("enough certified deals are held but dist_key_share() fails: {e}"));
            }
            ctx.outcome("no share");
        }
        Ok(Ok(k)) => {
            ctx.outcome("share");
            if !r.keyed(s) {
                fail("key-without-certification", "a share is released although too few deals are certified".into());
            } else {
                let h = r.h.unwrap();
                if k.share.i != h {
                    fail("share-index", format!("share carries index {}", k.share.i));
                }
                if k.commits.len() != r.w.t {
                    fail("poly-length", format!("public polynomial has {} coefficients, threshold is {}", k.commits.len(), r.w.t));
                }
                let kb = serde_json::to_vec(&k).unwrap();
                if memo.insert((h, kb.clone()), k.clone()).is_none() {
                    // (checked once per distinct key)
                    if eval_commits::<X>(&k.commits, h as i64 + 1) != X::pt(&k.share.v) {
                        fail("share-mismatch", "the share does not lie on the public polynomial".into());
                    }
                    if !r.w.fresh && k.commits[0] != r.w.old_commits[0] {
                        fail("group-key-changed", "the public key after resharing differs".into());
                    }
                }
                if r.w.fresh {
                    let (c, v) = expect_key(sc, r, s);
                    if k.commits != c || k.share.v != v {
                        fail("wrong-key", format!("key is not the sum of the contributions of exactly the qualified dealers {q:?}"));
                    }
                }
            }
        }
    }
    same
}

/// the message, serialised and read back
fn resent<X: Dk>(ctx: &Ctx, sc: &Scn<X>, e: &Evt<X>) -> Body<X> {
    use crate::p_save::round;
    let case = || json!({"suite": X::NAME, "scenario": sc.label, "message": e.id});
    let mut f = e.b.clone();
    match &mut f {
        Body::Deal { m, .. } | Body::BadDeal(m) => *m = round(ctx, "deal", m, &case).unwrap_or(m.clone()),
        Body::Resp { m, .. } | Body::BadResp(m) => *m = round(ctx, "response", m, &case).unwrap_or(m.clone()),
        Body::Just { m, .. } | Body::BadJust(m) => *m = round(ctx, "justification", m, &case).unwrap_or(m.clone()),
        _ => {}
    }
    f
}

pub fn explore<X: Dk>(ctx: &Ctx, sc: &Scn<X>, me: usize, opt: &Opt, res: &Res<X::S, X::P>, paths: &mut Vec<Vec<usize>>, keep: usize) {
    assert!(sc.ev.len() <= 64, "{} events", sc.ev.len());
    let r = Ref::new(sc.w, me);
    let g0 = sc.w.nodes[&me].clone();
    let ev = &sc.ev;
    let name_path = |p: &[usize], last: Option<usize>| -> Value {
        let mut v: Vec<String> = p.iter().map(|i| ev[*i].id.clone()).collect();
        if let Some(l) = last {
            v.push(ev[l].id.clone());
        }
        json!({"suite": X::NAME, "scenario": sc.label, "observed": me, "events": v})
    };
    let mut memo = HashMap::new();
    judge_state(ctx, sc, &r, &r.init(), &g0, &|| name_path(&[], None), &mut memo);
    let memo = std::cell::RefCell::new(memo);
    let twins = crate::p_save::Twins::new(X::NAME);
    let ev2: Vec<Body<X>> = if ctx.restoring() { ev.iter().map(|e| resent(ctx, sc, e)).collect() } else { vec![] };
    let obs = |g: &X::G| format!("{:?}", guard(|| (X::qual(g), X::thr_certified(g), X::certified(g), X::qshares(g), X::expected(g), X::sid(g), X::key(g).map(|k| (k.share, k.private_poly, k.commits.iter().map(|c| c.marshal_binary().ok()).collect::<Vec<_>>())).map_err(|_| "no key"))));
    let mut cnt = 0usize;
    let (ns, nt, complete) = bfs(
        vec![(canon(&g0), g0, r.init(), 0u64)],
        opt.max,
        |s: &(u128, X::G, NM, u64)| (s.0, s.2.clone(), s.3),
        |s, path: &[usize]| {
            let all = ev.iter().enumerate().all(|(i, e)| s.3 >> i & 1 == 1 || matches!(e.b, Body::Timeout | Body::BadDeal(_) | Body::BadResp(_) | Body::BadJust(_)));
            if (s.2.timeout && (all || !sc.lossless)) || r.certified(&s.2) {
                // conclusions, by broadcasts seen
                let mut seen: Vec<String> = vec![];
                for (i, e) in ev.iter().enumerate() {
                    if s.3 >> i & 1 == 1 && matches!(e.b, Body::Resp { .. } | Body::Just { .. }) {
                        seen.push(e.id.clone());
                    }
                }
                // own broadcasts
                if let Some(h) = r.h {
                    for (d, q) in s.2.d.iter().enumerate() {
                        if q.deal.is_some() && !(sc.w.fresh && r.o == Some(d)) {
                            let ok = own_status(ev, d, h, q, sc.w);
                            seen.push(resp_id(d, h, ok, q.sid.as_ref().unwrap(), sc.w));
                        }
                    }
                }
                if let Some(o) = r.o {
                    for (v, x) in sc.ev.iter().enumerate().filter_map(|(i, e)| match &e.b {
                        Body::Resp { d, v, ok: false, sid, .. } if *d == o && s.3 >> i & 1 == 1 && *sid == sc.w.sids[o] => Some((*v, ())),
                        _ => None,
                    }) {
                        let _ = x;
                        seen.push(format!("just[{o}->{v}:good]"));
                    }
                }
                seen.sort();
                seen.dedup();
                let kb = if r.keyed(&s.2) {
                    match guard(|| X::key(&s.1)) {
                        Ok(Ok(k)) => {
                            let hk = hash128(&serde_json::to_vec(&k.commits).unwrap());
                            res.shares.lock().unwrap().entry(hk).or_default().insert(k.share.i, k);
                            hk
                        }
                        _ => 0,
                    }
                } else {
                    0
                };
                let c = Concl {
                    me,
                    qual: r.qual(&s.2),
                    keyed: kb != 0,
                    key: kb,
                    events: path.iter().map(|i| ev[*i].id.clone()).collect(),
                    deals: s.2.d.iter().map(|q| q.sid.clone().map(|x| (x, q.poly == 0))).collect(),
                };
                let mut m = res.concl.lock().unwrap();
                let l = m.entry(seen).or_default();
                if !l.iter().any(|x| x.me == me && x.qual == c.qual && x.key == c.key && x.deals == c.deals) {
                    l.push(c);
                }
            }
            if path.len() >= 4 {
                cnt += 1;
                if keep > 0 && cnt % keep == 1 {
                    paths.push(path.to_vec());
                }
            }
        },
        |s, path| {
            let mut out = vec![];
            for (ei, e) in ev.iter().enumerate() {
                if e.hidden || matches!(e.req, Some(q) if s.3 >> q & 1 == 0) {
                    continue;
                }
                let done = s.3 >> ei & 1 == 1;
                if done && (!opt.dup || matches!(e.b, Body::Block(_) | Body::Timeout)) {
                    continue;
                }
                let seq: Vec<usize> = match &e.b {
                    Body::Block(v) => v.clone(),
                    _ => vec![ei],
                };
                let (mut g, mut m, mut mask) = (s.1.clone(), s.2.clone(), s.3 | 1 << ei);
                let mut before = s.0;
                let single = seq.len() == 1;
                let (mut same, mut changed) = (true, false);
                let case = || name_path(path, Some(ei));
                for k in seq {
                    let b = &ev[k].b;
                    let g0 = if ctx.restoring() && single { Some(g.clone()) } else { None };
                    let got = apply::<X>(&mut g, b, &format!("e{k}"));
                    let want = r.step(&mut m, b);
                    mask |= 1 << k;
                    let after = if single && got.as_ref().map(|x| x.2).unwrap_or(true) { 0 } else { canon(&g) };
                    let got = match got {
                        Err(p) => {
                            ctx.fail(&format!("panic-{}", cat(b)), p, case());
                            same = false;
                            break;
                        }
                        Ok(x) => x,
                    };
                    if let Some(g0) = g0 {
                        let short = |x: &Result<(Option<bool>, Option<X::J>, bool, Option<ps::Response>), String>| x.as_ref().map(|x| (x.0, x.1.as_ref().map(|j| twins.fp(j)), x.2, x.3.as_ref().map(|r| twins.fp(r)))).map_err(|e| e.clone());
                        if let Some(j) = &got.1 {
                            crate::p_save::round(ctx, "justification", j, &case);
                        }
                        if let Some(j) = &got.3 {
                            crate::p_save::round(ctx, "response", j, &case);
                        }
                        twins.step(ctx, path, ei, &g0, &g, &short(&Ok(got.clone())), &|g: &mut X::G| short(&apply::<X>(g, &ev2[k], &format!("e{k}"))), &obs, &case);
                    }
                    same &= judge_out::<X>(ctx, sc, &r, b, &want, &got, &ev[k].id, &case);
                    if !got.2 && want == Out::Err && after != before {
                        // refused but changed: whether that matters is decided by how the node goes on
                        changed = true;
                    }
                    before = after;
                }
                if same && !changed && matches!(e.b, Body::BadDeal(_) | Body::BadResp(_) | Body::BadJust(_)) {
                    // refused and nothing changed
                    continue;
                }
                if done && same {
                    // a repeated message: refused, nothing more to explore
                    if m == s.2 && !changed {
                        continue;
                    }
                }
                if changed && done && matches!(e.b, Body::BadDeal(_) | Body::BadResp(_) | Body::BadJust(_)) {
                    continue;
                }
                same &= judge_state(ctx, sc, &r, &m, &g, &case, &mut memo.borrow_mut());
                if same {
                    out.push((ei, (canon(&g), g, m, mask)));
                }
            }
            out
        },
    );
    ctx.st(ns);
    ctx.tr(nt);
    if !complete {
        ctx.extra("truncated", json!(true));
        ctx.bound(format!("{} observer {me}: state cap reached", sc.label));
    }
}

fn own_status<X: Dk>(ev: &[Evt<X>], d: usize, h: usize, q: &DM, w: &DWorld<X>) -> bool {
    let _ = (h, w);
    ev.iter()
        .find_map(|e| match &e.b {
            Body::Deal { d: dd, i, .. } if *dd == d && Some(&i.name) == q.deal.as_ref() => Some(i.content && i.declared_ok && (w.fresh || !i.c0_wrong)),
            _ => None,
        })
        .unwrap_or(true)
}
pub fn resp_id<X: Dk>(d: usize, v: usize, ok: bool, sid: &[u8], w: &DWorld<X>) -> String {
    format!("resp[{d}<-{v}:{}{}]", if ok { "ok" } else { "complaint" }, if *sid == w.sids[d] { "" } else { ":other-session" })
}

fn cat<X: Dk>(b: &Body<X>) -> &'static str {
    match b {
        Body::Deal { .. } | Body::BadDeal(_) => "deal",
        Body::Resp { .. } | Body::BadResp(_) => "response",
        Body::Just { .. } | Body::BadJust(_) => "justification",
        Body::Timeout => "timeout",
        Body::Block(_) => "block",
    }
}

fn judge_out<X: Dk>(ctx: &Ctx, sc: &Scn<X>, r: &Ref<X>, b: &Body<X>, want: &Out, got: &(Option<bool>, Option<X::J>, bool, Option<ps::Response>), id: &str, case: &dyn Fn() -> Value) -> bool {
    let mut same = true;
    let mut fail = |k: &str, w: String| {
        same = false;
        ctx.fail(k, w, case());
    };
    let c = cat(b);
    match want {
        Out::Err => {
            if got.2 {
                fail(&format!("accepted-{c}"), format!("{id} must be refused"));
            }
        }
        Out::Ok => {
            if !got.2 {
                fail(&format!("refused-{c}"), format!("{id} must be accepted"));
            }
            if got.1.is_some() {
                fail("unexpected-justification", format!("{id} answered with a justification"));
            }
        }
        Out::Resp(ok) => match got.0 {
            None => fail("refused-deal", format!("{id} must be answered")),
            Some(st) => {
                if st != *ok {
                    fail(if *ok { "complaint-about-good-deal" } else { "approved-bad-deal" }, format!("{id} answered with status {st}"));
                }
                if let (Some(rp), Body::Deal { d, i, .. }) = (&got.3, b) {
                    if rp.index as usize != *d || Some(rp.response.index as usize) != r.h || rp.response.session_id != i.csid {
                        fail("response-header", format!("response to {id} carries dealer {} index {} or another session", rp.index, rp.response.index));
                    }
                }
            }
        },
        Out::Just(v) => {
            if !got.2 {
                fail("refused-complaint", format!("{id} is a genuine complaint about the node's own deal, must be answered"));
            } else {
                match &got.1 {
                    None => fail("no-justification", format!("{id} is not answered with a justification")),
                    Some(j) => {
                        let x = serde_json::to_value(j).unwrap();
                        let m: MDeal<X::S, X::P> = serde_json::from_value(x["justification"]["deal"].clone()).unwrap();
                        if m != sc.w.good(r.o.unwrap(), *v) || x["index"] != json!(r.o.unwrap()) {
                            fail("justification-content", format!("the justification answering {id} does not reveal the share dealt to {v}"));
                        }
                    }
                }
            }
        }
    }
    same
}

/// replays event sequences on the other suite, verdict by verdict
pub fn replay<X: Dk, Y: Dk>(ctx: &Ctx, a: &Scn<X>, b: &Scn<Y>, me: usize, paths: &[Vec<usize>]) {
    for p in paths {
        let (mut ga, mut gb) = (a.w.nodes[&me].clone(), b.w.nodes[&me].clone());
        let mut same = true;
        'o: for e in p {
            let seq = |evs: &Body<X>| match evs {
                Body::Block(v) => v.clone(),
                _ => vec![*e],
            };
            for k in seq(&a.ev[*e].b) {
                let ra = apply::<X>(&mut ga, &a.ev[k].b, "r").map(|x| (x.0, x.1.is_some(), x.2)).ok();
                let rb = apply::<Y>(&mut gb, &b.ev[k].b, "r").map(|x| (x.0, x.1.is_some(), x.2)).ok();
                let sa = guard(|| (X::qual(&ga), X::thr_certified(&ga), X::certified(&ga), X::key(&ga).is_ok())).ok();
                let sb = guard(|| (Y::qual(&gb), Y::thr_certified(&gb), Y::certified(&gb), Y::key(&gb).is_ok())).ok();
                if a.ev[k].id != b.ev[k].id || ra != rb || sa != sb {
                    ctx.fail(
                        "suites-disagree",
                        format!("{}: {ra:?}/{sa:?} on {} but {rb:?}/{sb:?} on {}", a.ev[k].id, X::NAME, Y::NAME),
                        json!({"scenario": a.label, "observed": me, "events": p.iter().map(|i| a.ev[*i].id.clone()).collect::<Vec<_>>()}),
                    );
                    same = false;
                    break 'o;
                }
            }
        }
        if same {
            if let (Ok(Ok(k)), true) = (guard(|| Y::key(&gb)), true) {
                let h = k.share.i;
                if eval_commits::<Y>(&k.commits, h as i64 + 1) != Y::pt(&k.share.v) {
                    ctx.fail("share-mismatch", format!("on {} the share does not lie on the public polynomial", Y::NAME), json!({"scenario": a.label, "observed": me}));
                }
            }
            ctx.trace(1);
        }
    }
}

/// honest nodes that saw the same broadcasts must agree
pub fn agreement<X: Dk>(ctx: &Ctx, sc: &Scn<X>, res: &Res<X::S, X::P>) {
    let m = res.concl.lock().unwrap();
    for (seen, l) in m.iter() {
        for i in 0..l.len() {
            for j in 0..i {
                let (a, b) = (&l[i], &l[j]);
                ctx.tr(1);
                let case = || json!({"suite": X::NAME, "scenario": sc.label, "broadcasts": seen, "a": {"node": a.me, "events": a.events, "qual": a.qual, "completes": a.keyed}, "b": {"node": b.me, "events": b.events, "qual": b.qual, "completes": b.keyed}});
                // a node that leaves gets no share and knows no deals
                if Ref::new(sc.w, a.me).leaving() != Ref::new(sc.w, b.me).leaving() {
                    continue;
                }
                let disputed: Vec<usize> = (0..sc.w.nd()).filter(|d| a.qual.contains(d) != b.qual.contains(d) || a.deals[*d] != b.deals[*d]).collect();
                let split = if a.keyed && b.keyed { a.key != b.key } else { a.qual != b.qual && a.deals == b.deals };
                if !split {
                    continue;
                }
                let missing = disputed.iter().any(|d| a.deals[*d].is_none() != b.deals[*d].is_none());
                let key = if disputed.iter().any(|d| sc.equiv[*d]) {
                    "split-by-inconsistent-deals"
                } else if missing {
                    "split-by-missing-deal"
                } else {
                    "disagreement"
                };
                ctx.fail(key, format!("nodes {} and {} saw the same broadcasts but conclude qual {:?} / {:?}", a.me, b.me, a.qual, b.qual), case());
            }
        }
    }
    // any t shares of one key give the discrete logarithm of that key; fewer do not
    for (_, sh) in res.shares.lock().unwrap().iter() {
        let l: Vec<&MKey<X::S, X::P>> = sh.values().collect();
        let t = sc.w.t;
        for k in 1..=l.len() {
            for sub in subsets(l.len(), k) {
                let ss: Vec<MShare<X::S>> = sub.iter().map(|i| l[*i].share.clone()).collect();
                let r = guard(|| X::recover(&ss, t, sc.w.nh()));
                let ok = match &r {
                    Ok(Ok(x)) => k >= t && X::pt(x) == l[0].commits[0],
                    Ok(Err(_)) => k < t,
                    Err(_) => false,
                };
                ctx.check(ok, "reconstruction", "exactly the sets of at least t shares give the discrete logarithm of the public key", || json!({"scenario": sc.label, "suite": X::NAME, "holders": ss.iter().map(|s| s.i).collect::<Vec<_>>(), "t": t}));
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------
// scenarios of fresh generation

pub fn patch_json<A: Serialize, B: DeserializeOwned>(a: &A, f: impl FnOnce(&mut Value)) -> B {
    let mut v = serde_json::to_value(a).expect("ser");
    f(&mut v);
    serde_json::from_value(v).expect("mirror")
}

pub const KINDS: &[&str] = &["good", "missing", "share+1", "share-of-other", "sid-garbage", "t+1", "commit+1", "second", "for-other", "bad-sig", "bad-nonce", "bad-dh"];

/// the deal of kind `kind` sent by dealer d to holder h; None when nothing is sent
pub fn deal_of<X: Dk>(w: &DWorld<X>, w2: &DWorld<X>, d: usize, h: usize, kind: &str) -> Option<(DInfo<X>, X::Deal)> {
    let g = w.good(d, h);
    let node = w.dealer_node(d);
    let dk = w.keys[w.dealers[d]].clone();
    let o = (h + 1) % w.nh();
    let mut inf = DInfo {
        name: kind.to_string(),
        err: false,
        content: true,
        csid: w.sids[d].clone(),
        declared_ok: true,
        poly: 0,
        c0_wrong: w.wrong.contains(&d),
        m: Some(g.clone()),
    };
    seed_rng(&format!("craft{d}{h}{kind}"));
    let craft = |m: &MDeal<X::S, X::P>| X::craft_deal(node, d as u32, h, m);
    // session of a deal's content, as any holder computes it
    let csid = |m: &X::Deal| {
        let k = w.holders[h];
        let mut n = w.nodes[&k].clone();
        seed_rng("csid");
        guard(|| X::on_deal(&mut n, m)).ok().and_then(|r| r.ok()).map(|r| r.response.session_id).unwrap_or_default()
    };
    let m = match kind {
        "missing" => return None,
        "good" => w.deals[d].get(&h).cloned().unwrap_or_else(|| craft(&g)),
        "share+1" => {
            let mut m = g.clone();
            m.sec_share.v = m.sec_share.v + X::sc(1);
            inf.content = false;
            craft(&m)
        }
        "share-of-other" => {
            let mut m = g.clone();
            m.sec_share.v = w.good(d, o).sec_share.v;
            inf.content = false;
            craft(&m)
        }
        "sid-garbage" => {
            let mut m = g.clone();
            m.session_id = vec![7; 32];
            inf.declared_ok = false;
            craft(&m)
        }
        "t+1" => {
            let mut m = g.clone();
            m.t += 1;
            inf.content = false;
            inf.poly = 2;
            let x = craft(&m);
            inf.csid = csid(&x);
            inf.declared_ok = false;
            x
        }
        "commit+1" => {
            let mut m = g.clone();
            let l = m.commitments.len() - 1;
            m.commitments[l] = X::padd(&m.commitments[l], &X::pt(&X::sc(1)));
            inf.content = false;
            inf.poly = 2;
            let x = craft(&m);
            inf.csid = csid(&x);
            m.session_id = inf.csid.clone();
            craft(&m)
        }
        "second" => {
            let m = w2.good(d, h);
            inf.csid = w2.sids[d].clone();
            inf.poly = 1;
            inf.c0_wrong = w2.wrong.contains(&d);
            inf.m = Some(m.clone());
            X::craft_deal(w2.dealer_node(d), d as u32, h, &m)
        }
        "for-other" => {
            inf.err = true;
            X::craft_deal(node, d as u32, o, &w.good(d, o))
        }
        "bad-sig" => {
            inf.err = true;
            patch_json(&craft(&g), |v| {
                let mut s: Vec<u8> = serde_json::from_value(v["signature"].clone()).unwrap();
                s[8] ^= 1;
                v["signature"] = json!(s);
            })
        }
        "bad-nonce" => {
            inf.err = true;
            let x: X::Deal = patch_json(&craft(&g), |v| v["deal"]["nonce"] = json!(vec![0u8; 5]));
            X::resign_deal(&x, &dk)
        }
        "bad-dh" => {
            inf.err = true;
            let other = X::pt(&X::sc(99));
            let x: X::Deal = patch_json(&craft(&g), |v| v["deal"]["dhkey"] = serde_json::to_value(&other).unwrap());
            X::resign_deal(&x, &dk)
        }
        _ => panic!("kind {kind}"),
    };
    Some((inf, m))
}

#[derive(Clone, Debug)]
pub struct FSpec {
    pub label: String,
    pub faulty: Vec<usize>,
    /// (dealer, holder) -> kind of deal; default good
    pub kinds: HashMap<(usize, usize), String>,
    /// (faulty holder, dealer) -> "ok" | "complaint" | "none"; default ok
    pub resp: HashMap<(usize, usize), String>,
    /// dealer -> justification behaviour: good | wrong | none | other-session
    pub just: HashMap<usize, String>,
    /// 0 every interleaving; 1 honest dealers' messages in a fixed order; 2 delivered together
    pub mode: u8,
    pub bad: bool,
    pub lossless: bool,
}
impl FSpec {
    pub fn honest(label: &str, mode: u8) -> FSpec {
        FSpec { label: label.into(), faulty: vec![], kinds: HashMap::new(), resp: HashMap::new(), just: HashMap::new(), mode, bad: false, lossless: false }
    }
}

/// all messages the observed node can receive in this scenario
pub fn build_scn<'a, X: Dk>(w: &'a DWorld<X>, w2: &DWorld<X>, sp: &FSpec, me: usize) -> Scn<'a, X> {
    let (nd, nh) = (w.nd(), w.nh());
    let mh = w.holders.iter().position(|k| *k == me);
    let mo = w.dealers.iter().position(|k| *k == me);
    let hk = |h: usize| w.holders[h];
    let faulty_key = |k: usize| sp.faulty.contains(&k);
    let kind = |d: usize, h: usize| sp.kinds.get(&(d, h)).cloned().unwrap_or_else(|| "good".into());
    // everyone's reaction to the deals
    let mut complaints: Vec<(usize, usize)> = vec![];
    let mut resps: Vec<(usize, usize, bool, Vec<u8>, ps::Response)> = vec![];
    let mut mydeals: HashMap<usize, (DInfo<X>, X::Deal)> = HashMap::new();
    let mut csids: Vec<std::collections::BTreeSet<Vec<u8>>> = vec![Default::default(); nd];
    for d in 0..nd {
        for h in 0..nh {
            let own = w.dealers[d] == hk(h);
            if w.fresh && own && !sp.resp.contains_key(&(hk(h), d)) {
                continue;
            }
            if faulty_key(hk(h)) {
                let st = sp.resp.get(&(hk(h), d)).map(|s| s.as_str()).unwrap_or("ok");
                if st == "none" {
                    continue;
                }
                seed_rng(&format!("fr{d}{h}"));
                resps.push((d, h, st == "ok", w.sids[d].clone(), X::resp(d as u32, &w.sids[d], h as u32, st == "ok", &w.keys[hk(h)])));
                if st != "ok" {
                    complaints.push((d, h));
                }
                continue;
            }
            let Some((i, m)) = deal_of(w, w2, d, h, &kind(d, h)) else { continue };
            if !i.err {
                csids[d].insert(i.csid.clone());
            }
            if Some(h) == mh {
                let ok = i.content && i.declared_ok && (w.fresh || !i.c0_wrong);
                if !ok && !i.err {
                    complaints.push((d, h));
                }
                mydeals.insert(d, (i, m));
                continue;
            }
            let mut n = w.nodes[&hk(h)].clone();
            seed_rng(&format!("hr{d}{h}"));
            if let Ok(Ok(r)) = guard(|| X::on_deal(&mut n, &m)) {
                if !r.response.status {
                    complaints.push((d, h));
                }
                resps.push((d, h, r.response.status, r.response.session_id.clone(), r));
            }
        }
    }
    let mut ev: Vec<Evt<X>> = vec![];
    let mut blocks: Vec<Vec<usize>> = vec![vec![]; nd];
    for d in 0..nd {
        let dk = w.dealers[d];
        let mut add = |id: String, b: Body<X>, req: Option<usize>| -> usize {
            ev.push(Evt { id, b, req, hidden: false });
            blocks[d].push(ev.len() - 1);
            ev.len() - 1
        };
        let mut at: HashMap<usize, usize> = HashMap::new();
        if let Some((i, m)) = mydeals.remove(&d) {
            let ix = add(format!("deal[{d}->{}:{}]", mh.unwrap(), i.name), Body::Deal { d, i, m }, None);
            at.insert(mh.unwrap(), ix);
        }
        for (_, v, ok, sid, m) in resps.iter().filter(|r| r.0 == d) {
            let id = resp_id(d, *v, *ok, sid, w);
            let ix = add(id, Body::Resp { d, v: *v, ok: *ok, sid: sid.clone(), m: m.clone() }, None);
            at.insert(*v, ix);
        }
        // justifications
        if mo == Some(d) && !w.fresh {
            // (own justifications are the observed node's output)
        }
        for (_, v) in complaints.iter().filter(|c| c.0 == d) {
            if mo == Some(d) {
                continue;
            }
            let Some(req) = at.get(v) else { continue };
            let beh = if faulty_key(dk) { sp.just.get(&d).map(|s| s.as_str()).unwrap_or("none") } else { "good" };
            if beh == "none" {
                continue;
            }
            let cr = X::resp(d as u32, &w.sids[d], *v as u32, false, &w.keys[hk(*v)]);
            let g = w.good(d, *v);
            let mut inf = DInfo {
                name: format!("just:{beh}"),
                err: false,
                content: true,
                csid: w.sids[d].clone(),
                declared_ok: true,
                poly: 0,
                c0_wrong: w.wrong.contains(&d),
                m: Some(g.clone()),
            };
            seed_rng(&format!("just{d}{v}"));
            let j = match beh {
                "good" => {
                    // the real dealer's answer
                    let mut n = w.dealer_node(d).clone();
                    let a = guard(|| X::on_resp(&mut n, &cr)).ok().and_then(|r| r.ok()).flatten();
                    a.or_else(|| X::craft_just(w.dealer_node(d), d as u32, &cr, None))
                }
                "wrong" => {
                    let mut m = g.clone();
                    m.sec_share.v = m.sec_share.v + X::sc(1);
                    inf.content = false;
                    X::craft_just(w.dealer_node(d), d as u32, &cr, Some(&m))
                }
                "other-share" => {
                    inf.content = false;
                    X::craft_just(w.dealer_node(d), d as u32, &cr, Some(&w.good(d, (*v + 1) % nh)))
                }
                "second" => {
                    let cr2 = X::resp(d as u32, &w2.sids[d], *v as u32, false, &w.keys[hk(*v)]);
                    inf.csid = w2.sids[d].clone();
                    inf.poly = 1;
                    X::craft_just(w2.dealer_node(d), d as u32, &cr2, None)
                }
                _ => panic!("just {beh}"),
            };
            if let Some(j) = j {
                let sid = inf.csid.clone();
                add(format!("just[{d}->{v}:{beh}]"), Body::Just { d, v: *v, i: inf, sid, m: j }, Some(*req));
            }
        }
    }
    // reduce the interleaving of honest dealers' messages, if asked
    if sp.mode > 0 {
        for d in 0..nd {
            if faulty_key(w.dealers[d]) {
                continue;
            }
            if sp.mode == 1 {
                for k in 1..blocks[d].len() {
                    let prev = blocks[d][k - 1];
                    ev[blocks[d][k]].req = Some(prev);
                }
            } else if !blocks[d].is_empty() {
                for k in &blocks[d] {
                    ev[*k].hidden = true;
                }
                ev.push(Evt { id: format!("all-about[{d}]"), b: Body::Block(blocks[d].clone()), req: None, hidden: false });
            }
        }
    }
    if sp.bad {
        // forged and out-of-range messages
        seed_rng("bad");
        let d = (mo.unwrap_or(0) + 1) % nd;
        let v = (mh.unwrap_or(0) + 2) % nh;
        let g = X::resp(d as u32, &w.sids[d], v as u32, true, &w.keys[hk(v)]);
        let mut push = |id: &str, b: Body<X>| ev.push(Evt { id: id.into(), b, req: None, hidden: false });
        let mut r = g.clone();
        r.response.signature[8] ^= 1;
        push("badresp[sig]", Body::BadResp(r));
        let mut r = g.clone();
        r.response.status = false;
        push("badresp[status-flipped]", Body::BadResp(r));
        let mut r = g.clone();
        r.response.index = (v as u32 + 1) % nh as u32;
        push("badresp[holder-moved]", Body::BadResp(r));
        for bad in [nd as u32, u32::MAX] {
            let mut r = g.clone();
            r.index = bad;
            push(&format!("badresp[dealer={bad}]"), Body::BadResp(r));
            push(&format!("badresp[holder={bad}]"), Body::BadResp(X::resp(d as u32, &w.sids[d], nh as u32 + bad % 7, true, &w.keys[hk(v)])));
        }
        push("badresp[other-signer]", Body::BadResp(X::resp(d as u32, &w.sids[d], v as u32, false, &w.keys[w.dealers[d]])));
        if let Some(h) = mh {
            let (_, m) = deal_of(w, w2, d, h, "good").unwrap();
            for bad in [nd as u32, u32::MAX, (d as u32 + 1) % nd as u32] {
                push(&format!("baddeal[index={bad}]"), Body::BadDeal(patch_json(&m, |v| v["index"] = json!(bad))));
                let x: X::Deal = patch_json(&m, |v| v["index"] = json!(bad));
                push(&format!("baddeal[index={bad},resigned]"), Body::BadDeal(X::resign_deal(&x, &w.keys[w.dealers[d]])));
            }
            let m2 = w2.deals[d].get(&h).cloned();
            if let Some(m2) = m2 {
                // a deal of another run, under another dealer's signature
                push("baddeal[foreign-signer]", Body::BadDeal(X::resign_deal(&m2, &w.keys[hk(h)])));
            }
        }
        let cr = X::resp(d as u32, &w.sids[d], v as u32, false, &w.keys[hk(v)]);
        if let Some(j) = X::craft_just(w.dealer_node(d), d as u32, &cr, None) {
            // nobody complained in these scenarios
            push("badjust[no-complaint]", Body::BadJust(j.clone()));
            push("badjust[dealer=n]", Body::BadJust(patch_json(&j, |v| v["index"] = json!(nd))));
            push("badjust[holder=n]", Body::BadJust(patch_json(&j, |v| v["justification"]["index"] = json!(nh))));
        }
    }
    ev.push(Evt { id: "timeout".into(), b: Body::Timeout, req: None, hidden: false });
    Scn { label: sp.label.clone(), w, ev, poly2: w2.polys.clone(), equiv: csids.iter().map(|c| c.len() > 1).collect(), lossless: sp.lossless }
}

pub struct Plan {
    pub n: usize,
    pub t: usize,
    pub spec: FSpec,
    pub replay: bool,
}

pub fn run_fresh<X: Dk, Y: Dk>(ctx: &Ctx, plans: &[Plan], keep: usize) {
    let mut sizes: Vec<(usize, usize)> = plans.iter().map(|p| (p.n, p.t)).collect();
    sizes.sort();
    sizes.dedup();
    fn worlds<Z: Dk>(sizes: &[(usize, usize)]) -> HashMap<(usize, usize), (DWorld<Z>, DWorld<Z>)> {
        sizes
            .iter()
            .map(|(n, t)| {
                let ix: Vec<usize> = (0..*n).collect();
                ((*n, *t), (DWorld::<Z>::build(&ix, &ix, *t, 0, true, &[], 1, &[]), DWorld::<Z>::build(&ix, &ix, *t, 0, true, &[], 2, &[])))
            })
            .collect()
    }
    let wx = worlds::<X>(&sizes);
    let wy = worlds::<Y>(&sizes);
    par_items(plans, |p| {
        let (w, w2) = &wx[&(p.n, p.t)];
        let res = Res::new();
        let mut last = None;
        for me in (0..p.n).filter(|k| !p.spec.faulty.contains(k)) {
            let sc = build_scn(w, w2, &p.spec, me);
            let mut paths = vec![];
            explore(ctx, &sc, me, &Opt { dup: p.spec.lossless || ctx.thorough(), ..Opt::default() }, &res, &mut paths, keep);
            if p.replay {
                paths.truncate(3);
                let (v, v2) = &wy[&(p.n, p.t)];
                let sy = build_scn(v, v2, &p.spec, me);
                replay::<X, Y>(ctx, &sc, &sy, me, &paths);
            }
            last = Some(sc);
        }
        if let Some(sc) = last {
            agreement(ctx, &sc, &res);
        }
    });
}

/// configurations: what a node accepts as a run
fn configs<X: Dk>(ctx: &Ctx, nmax: usize) {
    for n in 1..=nmax {
        let keys: Vec<X::S> = (0..n).map(|i| X::sc(500 + i as i64)).collect();
        let pubs: Vec<X::P> = keys.iter().map(|k| X::pt(k)).collect();
        for t in 0..=n + 1 {
            let c = GCfg { long: keys[0].clone(), old: vec![], new: pubs.clone(), coeffs: None, share: None, t, old_t: 0, seed: 5 };
            let te = if t == 0 { (n + 1) / 2 } else { t };
            seed_rng("cfg");
            let r = guard(|| X::new(&c));
            ctx.tr(1);
            let case = || json!({"suite": X::NAME, "n": n, "t": t});
            let valid = te >= 2 && te <= n;
            match r {
                Err(p) => ctx.fail("panic-config", p, case()),
                Ok(Err(_)) => {
                    ctx.check(!valid, "config-refused", "a valid configuration is refused", case);
                }
                Ok(Ok(mut g)) => {
                    ctx.check(valid, "config-accepted", "an invalid threshold is accepted", case);
                    ctx.check(guard(|| X::key(&g).is_err()) == Ok(true), "key-before-start", "a share is released before anything happened", case);
                    let d = guard(|| X::deals(&mut g));
                    ctx.check(matches!(&d, Ok(Ok(m)) if m.len() == n - 1 && X::expected(&g) == n - 1), "deals", "deals for every other participant, and as many are expected", case);
                    ctx.check(guard(|| (X::key(&g).is_err(), X::thr_certified(&g))) == Ok((true, false)), "key-after-own-deal", "a share is released with only the own deal", case);
                    // with the default threshold the run must end with the key of that threshold
                    if t == 0 && n <= 4 {
                        let mut gs: Vec<X::G> = keys
                            .iter()
                            .map(|k| {
                                let mut c = c.clone();
                                c.long = k.clone();
                                X::new(&c).unwrap()
                            })
                            .collect();
                        let k = guard(|| full_run::<X>(&mut gs));
                        ctx.check(matches!(&k, Ok(Ok(ks)) if ks.iter().all(|k| k.commits.len() == te)), "default-threshold-run", "a run with the default threshold ends with a key of that threshold", case);
                        let mut g1 = gs[0].clone();
                        let _ = guard(|| X::timeout(&mut g1));
                        let mut g2 = X::new(&c).unwrap();
                        X::timeout(&mut g2);
                        ctx.check(guard(|| (X::thr_certified(&g2), X::key(&g2).is_err())) == Ok((false, true)), "default-threshold-empty", "with the default threshold and no deal nothing is certified", case);
                    }
                }
            }
        }
        // the node must be listed, and nodes must be distinct
        let mut c = GCfg { long: X::sc(77), old: vec![], new: pubs.clone(), coeffs: None, share: None, t: 2, old_t: 0, seed: 5 };
        ctx.check(matches!(guard(|| X::new(&c)), Ok(Err(_))), "unlisted-node", "a node that is not listed cannot take part", || json!({"n": n}));
        if n >= 3 {
            c.long = keys[0].clone();
            c.new[2] = c.new[1].clone();
            let r = guard(|| X::new(&c));
            ctx.check(matches!(r, Ok(Err(_))), "duplicate-node", "a list with a duplicate node is refused", || json!({"n": n}));
        }
        c.new = vec![];
        ctx.check(matches!(guard(|| X::new(&c)), Ok(Err(_))), "empty-list", "an empty list is refused", || json!({"n": n}));
    }
}

/// runs everything in one fixed order
pub fn full_run<X: Dk>(gs: &mut [X::G]) -> Result<Vec<MKey<X::S, X::P>>, String> {
    let mut rs = vec![];
    for d in 0..gs.len() {
        let deals = X::deals(&mut gs[d])?;
        let mut hs: Vec<_> = deals.into_iter().collect();
        hs.sort_by_key(|x| x.0);
        for (h, m) in hs {
            rs.push((h, X::on_deal(&mut gs[h], &m)?));
        }
    }
    for (v, r) in rs {
        for h in 0..gs.len() {
            if h != v {
                X::on_resp(&mut gs[h], &r)?;
            }
        }
    }
    gs.iter().map(|g| X::key(g)).collect()
}

pub fn c17(ctx: &Ctx) -> i32 {
    let mut plans = vec![];
    for (n, t) in [(2, 2), (3, 2), (3, 3)] {
        plans.push(Plan { n, t, spec: FSpec::honest(&format!("honest n={n} t={t}"), 0), replay: true });
    }
    let mut s = FSpec::honest("honest n=3 t=2, forged messages", 0);
    s.bad = true;
    plans.push(Plan { n: 3, t: 2, spec: s, replay: false });
    for (n, t, mode) in ctx.pick(vec![(4, 2, 1), (4, 3, 1), (4, 4, 1), (5, 3, 2), (6, 4, 2)], vec![(4, 2, 0), (4, 3, 0), (4, 4, 0), (5, 3, 1), (6, 4, 2), (7, 4, 2)]) {
        plans.push(Plan { n, t, spec: FSpec::honest(&format!("honest n={n} t={t} mode {mode}"), mode), replay: n == 4 });
    }
    for p in plans.iter_mut() {
        p.spec.lossless = true;
    }
    run_fresh::<DkToy, DkEd>(ctx, &plans, ctx.pick(97, 997));
    configs::<DkToy>(ctx, 5);
    configs::<DkEd>(ctx, 3);
    many_fresh::<DkToy>(ctx, ctx.pick(&[(9, 5), (11, 2), (12, 12), (17, 9)], &[(9, 5), (11, 2), (11, 6), (12, 12), (17, 9), (33, 17)]), false);
    ctx.bound("every node observed; n=2,3: every delivery order, every loss, every point of the timeout, repetitions, forged messages; n=4: same with messages about one dealer in a fixed order (thorough: every order); n=5..7: messages about one dealer delivered together");
    0
}

pub fn c18(ctx: &Ctx) -> i32 {
    let mut plans: Vec<Plan> = vec![];
    let mut add = |n: usize, t: usize, sp: FSpec, replay: bool| plans.push(Plan { n, t, spec: sp, replay });
    for f in 0..3usize {
        let hon: Vec<usize> = (0..3).filter(|x| *x != f).collect();
        let kinds: Vec<&str> = KINDS.to_vec();
        for (a, ka) in kinds.iter().enumerate() {
            for (b, kb) in kinds.iter().enumerate() {
                if f != 2 && !ctx.thorough() && a != b && a != 0 && b != 0 {
                    continue;
                }
                let compl = |k: &str| !matches!(k, "good" | "missing" | "second" | "for-other" | "bad-sig" | "bad-nonce" | "bad-dh");
                let js: Vec<&str> = if compl(ka) || compl(kb) { vec!["good", "wrong", "none", "other-share", "second"] } else { vec!["none"] };
                for j in js {
                    if !ctx.thorough() && matches!(j, "other-share" | "second") && !(a == 0 || b == 0) {
                        continue;
                    }
                    let mut s = FSpec::honest(&format!("n=3 t=2 faulty={f} deals={ka}/{kb} justification={j}"), 0);
                    s.faulty = vec![f];
                    s.kinds.insert((f, hon[0]), ka.to_string());
                    s.kinds.insert((f, hon[1]), kb.to_string());
                    s.just.insert(f, j.into());
                    s.mode = if ctx.thorough() { 0 } else { 1 };
                    let rp = f == 2 && (a == 0 || b == 0);
                    add(3, 2, s, rp);
                }
            }
        }
        // false complaints and silence about honest dealers
        for r0 in ["ok", "complaint", "none"] {
            for r1 in ["ok", "complaint", "none"] {
                for k in ["good", "missing", "share+1"] {
                    for t in [2, 3] {
                        let mut s = FSpec::honest(&format!("n=3 t={t} faulty={f} responses={r0}/{r1} deals={k}"), if ctx.thorough() { 0 } else { 1 });
                        s.faulty = vec![f];
                        s.resp.insert((f, hon[0]), r0.into());
                        s.resp.insert((f, hon[1]), r1.into());
                        for h in &hon {
                            s.kinds.insert((f, *h), k.into());
                        }
                        s.just.insert(f, "good".into());
                        add(3, t, s, f == 2);
                    }
                }
            }
        }
    }
    // a dealer that answers its own deal
    for r in ["ok", "complaint"] {
        for k in ["good", "share+1"] {
            for j in ["good", "none"] {
                let mut s = FSpec::honest(&format!("n=3 t=2 faulty=2 own response={r} deals={k} justification={j}"), 1);
                s.faulty = vec![2];
                s.resp.insert((2, 2), r.into());
                s.kinds.insert((2, 0), k.into());
                s.just.insert(2, j.into());
                add(3, 2, s, j == "none");
            }
        }
    }
    // four nodes, one faulty
    for t in [2usize, 3] {
        for (ka, kb, kc) in [("share+1", "good", "good"), ("share+1", "share+1", "good"), ("missing", "good", "good"), ("missing", "missing", "good"), ("missing", "missing", "missing"), ("sid-garbage", "good", "missing"), ("second", "good", "good"), ("second", "second", "good")] {
            for j in ["good", "wrong", "none"] {
                for r in ["ok", "complaint", "none"] {
                    if !ctx.thorough() && r != "ok" && j != "good" {
                        continue;
                    }
                    let mut s = FSpec::honest(&format!("n=4 t={t} faulty=3 deals={ka}/{kb}/{kc} justification={j} responses={r}"), 2);
                    s.faulty = vec![3];
                    for (h, k) in [ka, kb, kc].iter().enumerate() {
                        s.kinds.insert((3, h), k.to_string());
                        s.resp.insert((3, h), r.into());
                    }
                    s.just.insert(3, j.into());
                    add(4, t, s, false);
                }
            }
        }
    }
    // five nodes, two faulty
    for (k3, k4) in [("share+1", "missing"), ("share+1", "share+1"), ("missing", "missing"), ("sid-garbage", "share+1"), ("good", "good")] {
        for (j3, j4) in [("good", "wrong"), ("wrong", "none"), ("good", "good")] {
            for r in ["ok", "complaint", "none"] {
                if !ctx.thorough() && r == "none" && j3 != "good" {
                    continue;
                }
                let mut s = FSpec::honest(&format!("n=5 t=3 faulty=3,4 deals={k3}/{k4} justification={j3}/{j4} responses={r}"), 2);
                s.faulty = vec![3, 4];
                s.kinds.insert((3, 0), k3.into());
                s.kinds.insert((4, 1), k4.into());
                for f in [3, 4] {
                    for d in (0..5).filter(|d| *d != f) {
                        s.resp.insert((f, d), if d < 2 { r.into() } else { "ok".into() });
                    }
                }
                s.just.insert(3, j3.into());
                s.just.insert(4, j4.into());
                add(5, 3, s, false);
            }
        }
    }
    ctx.extra("scenarios", json!(plans.len()));
    run_fresh::<DkToy, DkEd>(ctx, &plans, ctx.pick(61, 997));
    for (n, t, bad) in ctx.pick(vec![(3, 2, Some((1, 2)))], vec![(3, 2, Some((1, 2))), (4, 3, Some((0, 3))), (4, 2, None)]) {
        let all: Vec<usize> = (0..n).collect();
        crate::p_tamper::dkg::<DkToy>(ctx, &all, &all, t, 0, true, bad);
    }
    crate::p_tamper::dkg::<DkEd>(ctx, &[0, 1, 2], &[0, 1, 2], 2, 0, true, Some((0, 1)));
    many_fresh::<DkToy>(ctx, ctx.pick(&[(11, 6)], &[(9, 9), (11, 2), (11, 6), (12, 7)]), true);
    ctx.bound("n=3, every faulty node: every pair of kinds of deal for the two honest nodes x justification behaviour; every response behaviour; every causally valid order, loss and timeout. n=4, 5: selected faults, messages about honest dealers delivered together");
    0
}

// ------------------------------------------------------------------------------------------------
// resharing

#[derive(Clone)]
pub struct RPlan {
    pub dealers: Vec<usize>,
    pub holders: Vec<usize>,
    pub t: usize,
    pub old_t: usize,
    pub wrong: Vec<usize>,
    pub spec: FSpec,
    pub replay: bool,
    pub dup: bool,
}

pub fn run_reshare<X: Dk, Y: Dk>(ctx: &Ctx, plans: &[RPlan], keep: usize) {
    fn worlds<Z: Dk>(p: &RPlan) -> (DWorld<Z>, DWorld<Z>) {
        let b = |s| DWorld::<Z>::build(&p.dealers, &p.holders, p.t, p.old_t, false, &p.wrong, s, &[]);
        (b(1), b(2))
    }
    par_items(plans, |p| {
        let (w, w2) = worlds::<X>(p);
        let wy = if p.replay { Some(worlds::<Y>(p)) } else { None };
        let res = Res::new();
        let mut last = None;
        for me in w.nodes.keys().cloned().filter(|k| !p.spec.faulty.contains(k)).collect::<Vec<_>>() {
            let sc = build_scn(&w, &w2, &p.spec, me);
            let mut paths = vec![];
            explore(ctx, &sc, me, &Opt { dup: p.dup, ..Opt::default() }, &res, &mut paths, keep);
            if let Some((v, v2)) = &wy {
                paths.truncate(2);
                let sy = build_scn(v, v2, &p.spec, me);
                replay::<X, Y>(ctx, &sc, &sy, me, &paths);
            }
            last = Some(sc);
        }
        if let Some(sc) = last {
            agreement(ctx, &sc, &res);
            // whatever subset of the new group: the old secret
            let secret = X::pt(&w.old_poly[0]);
            for (_, sh) in res.shares.lock().unwrap().iter() {
                for k in sh.values() {
                    ctx.check(k.commits[0] == secret, "group-key-changed", "a share under another public key than that of the old group", || json!({"suite": X::NAME, "scenario": sc.label, "holder": k.share.i}));
                }
            }
        }
    });
}

/// group shapes: old and new members as indices of keys
fn shapes(on: usize, nn: usize) -> Vec<(&'static str, Vec<usize>, Vec<usize>)> {
    let old: Vec<usize> = (0..on).collect();
    let mut v = vec![("disjoint", old.clone(), (on..on + nn).collect::<Vec<_>>())];
    if on == nn {
        v.push(("same", old.clone(), old.clone()));
        v.push(("reversed", old.clone(), old.iter().rev().cloned().collect()));
    }
    if nn > on {
        v.push(("joining", old.clone(), (0..nn).collect()));
    }
    if nn < on {
        v.push(("shrinking", old.clone(), (on - nn..on).collect()));
    }
    // one member stays, at another index
    let mut h: Vec<usize> = (on..on + nn - 1).collect();
    h.push(0);
    v.push(("one-stays", old.clone(), h));
    if on >= 3 && nn >= 3 {
        let mut h: Vec<usize> = (on..on + nn - 2).collect();
        h.insert(0, on - 1);
        h.push(1);
        v.push(("two-stay", old, h));
    }
    v
}

fn reshare_configs<X: Dk>(ctx: &Ctx) {
    let w = DWorld::<X>::build(&[0, 1, 2], &[1, 2, 3], 2, 2, false, &[], 1, &[4]);
    let dp: Vec<X::P> = w.dealers.iter().map(|d| w.pubs[*d].clone()).collect();
    let hp: Vec<X::P> = w.holders.iter().map(|d| w.pubs[*d].clone()).collect();
    let share = |i: usize| Some(MKey { commits: w.old_commits.clone(), share: MShare { i, v: horner(&w.old_poly, X::sc(i as i64 + 1), X::sc(0)) }, private_poly: vec![] });
    let base = |k: usize, sh: bool, co: bool| GCfg {
        long: w.keys[k].clone(),
        old: dp.clone(),
        new: hp.clone(),
        coeffs: if co { Some(w.old_commits.clone()) } else { None },
        share: if sh { share(k) } else { None },
        t: 2,
        old_t: 2,
        seed: 3,
    };
    let mut cases: Vec<(String, GCfg<X::S, X::P>, bool)> = vec![];
    for (k, sh, co, ok) in [(0, true, false, true), (1, true, false, true), (1, true, true, true), (3, false, true, true), (4, false, true, false), (0, true, true, true)] {
        cases.push((format!("node {k} share {sh} coefficients {co}"), base(k, sh, co), ok));
    }
    let mut c = base(3, false, true);
    c.old = vec![];
    cases.push(("no old nodes".into(), c, false));
    let mut c = base(3, false, true);
    c.old_t = 0;
    cases.push(("no old threshold".into(), c, false));
    for t in [1, 4, 1 << 33] {
        let mut c = base(0, true, false);
        c.t = t;
        cases.push((format!("issuing with threshold {t}"), c, false));
    }
    for dup in 0..2 {
        let mut c = base(3, false, true);
        c.old[dup] = c.old[2].clone();
        cases.push((format!("duplicate old node {dup}"), c, false));
    }
    for (name, c, ok) in cases {
        seed_rng("rcfg");
        let r = guard(|| X::new(&c));
        ctx.tr(1);
        let case = || json!({"suite": X::NAME, "configuration": name});
        match r {
            Err(p) => ctx.fail("panic-config", p, case()),
            Ok(r) => {
                ctx.check(r.is_ok() == ok, if ok { "config-refused" } else { "config-accepted" }, &format!("{name}: must be {}", if ok { "accepted" } else { "refused" }), case);
                if let Ok(g) = r {
                    ctx.check(guard(|| X::key(&g).is_err()) == Ok(true), "key-before-start", "a share is released before anything happened", case);
                    let mut g2 = g.clone();
                    ctx.check(guard(|| { X::timeout(&mut g2); (X::key(&g2).is_err(), X::thr_certified(&g2)) }) == Ok((true, false)), "key-after-silence", "a share is released when nobody sent anything", case);
                }
            }
        }
    }
    // how many deals are expected, and who deals
    for (k, exp, nd) in [(0usize, 0usize, 3usize), (1, 2, 3), (2, 2, 3), (3, 3, 0)] {
        let mut g = X::new(&base(k, k != 3, k == 3)).expect("cfg");
        ctx.check(guard(|| X::expected(&g)) == Ok(exp), "expected-deals", &format!("node {k} must expect {exp} deals"), || json!({"suite": X::NAME, "node": k}));
        let d = guard(|| X::deals(&mut g));
        ctx.check(matches!(&d, Ok(Ok(m)) if m.len() == nd), "issued-deals", &format!("node {k} must issue {nd} deals"), || json!({"suite": X::NAME, "node": k}));
    }
}

pub fn c19(ctx: &Ctx) -> i32 {
    let mut plans: Vec<RPlan> = vec![];
    let mut add = |sh: &(&str, Vec<usize>, Vec<usize>), old_t: usize, t: usize, wrong: &[usize], mut sp: FSpec, replay: bool, dup: bool| {
        sp.label = format!("reshare {}: old {:?} t={old_t} -> new {:?} t={t}; {}", sh.0, sh.1, sh.2, sp.label);
        for d in wrong {
            if !sp.faulty.contains(&sh.1[*d]) {
                sp.faulty.push(sh.1[*d]);
            }
        }
        plans.push(RPlan { dealers: sh.1.clone(), holders: sh.2.clone(), t, old_t, wrong: wrong.to_vec(), spec: sp, replay, dup });
    };
    let (nmax, mmax) = ctx.pick((3, 4), (4, 5));
    // honest runs of every shape and threshold, messages about one dealer together (a dealer is lost or not)
    for on in 2..=nmax {
        for nn in 2..=mmax {
            for sh in shapes(on, nn) {
                for old_t in 2..=on {
                    for t in 2..=nn {
                        add(&sh, old_t, t, &[], FSpec::honest("honest, by dealer", 2), on + nn <= 5, false);
                    }
                }
            }
        }
    }
    // every order of small ones
    for (on, nn) in ctx.pick(vec![(2, 2), (3, 2), (2, 3)], vec![(2, 2), (3, 2), (2, 3), (3, 3)]) {
        for sh in shapes(on, nn) {
            let mut sp = FSpec::honest("honest, every order", if on + nn > 5 { 1 } else { 0 });
            sp.bad = on + nn == 4;
            add(&sh, 2, 2, &[], sp, true, on + nn <= 4 || ctx.thorough());
        }
    }
    // faulty dealers: another secret than the share, bad shares, silence; how justified
    let kinds: &[&str] = &["good", "missing", "share+1", "share-of-other", "sid-garbage", "t+1", "commit+1", "second", "for-other", "bad-sig", "bad-nonce", "bad-dh"];
    for (on, nn) in [(3usize, 2usize), (3, 3)] {
        for sh in shapes(on, nn) {
            if nn == 3 && !ctx.thorough() && !matches!(sh.0, "disjoint" | "same" | "two-stay") {
                continue;
            }
            for f in [0usize, on - 1] {
                let fk = sh.1[f];
                let hon: Vec<usize> = (0..nn).filter(|h| sh.2[*h] != fk).collect();
                for wrong in [false, true] {
                    let wv: Vec<usize> = if wrong { vec![f] } else { vec![] };
                    for ka in kinds {
                        for kb in ["good", "missing", "share+1", "second"] {
                            if !ctx.thorough() && *ka != "good" && kb != "good" && (f != 0 || nn == 3) {
                                continue;
                            }
                            for j in ["good", "wrong", "none", "second"] {
                                if !ctx.thorough() && j == "second" && kb != "second" {
                                    continue;
                                }
                                let complains = wrong || !matches!(*ka, "good" | "missing" | "second" | "for-other" | "bad-sig" | "bad-nonce" | "bad-dh") || kb == "share+1";
                                if !complains && j != "none" {
                                    continue;
                                }
                                let mut sp = FSpec::honest(&format!("faulty dealer {f}{} deals={ka}/{kb} justification={j}", if wrong { " of another secret" } else { "" }), 2);
                                sp.faulty = vec![fk];
                                sp.kinds.insert((f, hon[0]), ka.to_string());
                                for h in &hon[1..] {
                                    sp.kinds.insert((f, *h), kb.to_string());
                                }
                                sp.just.insert(f, j.into());
                                add(&sh, 2, 2, &wv, sp, nn == 2 && f == 0 && kb == "good", false);
                            }
                        }
                    }
                }
            }
            // several dealers of another secret: with fewer than old_t good ones nobody completes
            for old_t in 2..=on {
                for mask in 1..1usize << on {
                    let wv: Vec<usize> = (0..on).filter(|i| mask >> i & 1 == 1).collect();
                    for j in ["none", "good"] {
                        let mut sp = FSpec::honest(&format!("dealers {wv:?} of another secret, justification={j}"), 2);
                        for d in &wv {
                            sp.just.insert(*d, j.into());
                        }
                        add(&sh, old_t, 2, &wv, sp, old_t == 2, false);
                    }
                }
            }
            // faulty holders
            for f in 0..nn {
                let fk = sh.2[f];
                for r in ["complaint", "none"] {
                    for t in 2..=nn {
                        for some in [false, true] {
                            let mut sp = FSpec::honest(&format!("faulty holder {f} answers {r}{}", if some { " to dealer 1 only" } else { "" }), 2);
                            sp.faulty = vec![fk];
                            for d in 0..on {
                                sp.resp.insert((fk, d), if some && d != 1 { "ok".into() } else { r.into() });
                            }
                            for d in 0..on {
                                sp.just.insert(d, "good".into());
                            }
                            add(&sh, 2, t, &[], sp, nn == 2, false);
                        }
                    }
                }
            }
        }
    }
    ctx.extra("scenarios", json!(plans.len()));
    run_reshare::<DkToy, DkEd>(ctx, &plans, ctx.pick(53, 499));
    for (d, h, t, ot, bad) in ctx.pick(vec![(vec![0, 1, 2], vec![1, 2, 3], 2, 2, Some((0, 2)))], vec![(vec![0, 1, 2], vec![1, 2, 3], 2, 2, Some((0, 2))), (vec![0, 1], vec![2, 3, 4], 3, 2, Some((1, 1))), (vec![0, 1, 2, 3], vec![0, 1, 2], 2, 3, Some((2, 1)))]) {
        crate::p_tamper::dkg::<DkToy>(ctx, &d, &h, t, ot, false, bad);
    }
    crate::p_tamper::dkg::<DkEd>(ctx, &[0, 1, 2], &[1, 2, 3], 2, 2, false, None);
    many_reshare::<DkToy>(ctx);
    reshare_configs::<DkToy>(ctx);
    reshare_configs::<DkEd>(ctx);
    ctx.bound("every shape (same, reversed, disjoint, joining, shrinking, one or two staying) and threshold up to 3 old and 4 new nodes (thorough 4 and 5) with dealers lost or not; every order for up to 5 nodes; every fault of one dealer or holder and every set of dealers of another secret for 3 old nodes");
    0
}

// ------------------------------------------------------------------------------------------------
// many participants: every step of a family of complete schedules

/// Complete schedules of the scenario's messages: grouped by dealer or by holder, deals before or after the
/// answers, forwards or backwards, starting with participant r; the timeout at the end, or at the start.
fn schedules<X: Dk>(sc: &Scn<X>, rots: &[usize]) -> Vec<Vec<usize>> {
    let of = |e: &Evt<X>| match &e.b {
        Body::Deal { d, .. } => Some((*d, 0usize, 0usize)),
        Body::Resp { d, v, .. } => Some((*d, 1, *v)),
        Body::Just { d, v, .. } => Some((*d, 2, *v)),
        _ => None,
    };
    let msgs: Vec<(usize, (usize, usize, usize))> = sc.ev.iter().enumerate().filter_map(|(i, e)| of(e).map(|k| (i, k))).collect();
    let timeout = sc.ev.iter().position(|e| matches!(e.b, Body::Timeout));
    let m = sc.w.nd().max(sc.w.nh());
    let mut out: Vec<Vec<usize>> = vec![];
    for shape in 0..4usize {
        for r in rots {
            let turn = |x: usize| (x + m - r % m) % m;
            let mut l = msgs.clone();
            l.sort_by_key(|(_, (d, k, v))| match shape {
                0 => (turn(*d), *k, turn(*v)),
                1 => (0, turn(*v) * 4 + if *k == 2 { 3 } else { 0 }, turn(*d)),
                2 => (*k, turn(*v), turn(*d)),
                _ => (2 - *k, m - turn(*d), m - turn(*v)),
            });
            // a message never precedes the one it answers
            let mut path: Vec<usize> = vec![];
            let mut wait: Vec<usize> = l.iter().map(|x| x.0).collect();
            while !wait.is_empty() {
                let k = wait.iter().position(|i| sc.ev[*i].req.map(|q| path.contains(&q)).unwrap_or(true)).expect("schedule");
                path.push(wait.remove(k));
            }
            for at in [path.len(), 0] {
                let mut p = path.clone();
                p.extend(timeout.filter(|_| at > 0));
                if at == 0 {
                    if *r != rots[0] {
                        continue;
                    }
                    p.splice(0..0, timeout);
                }
                if !out.contains(&p) {
                    out.push(p);
                }
            }
        }
    }
    out
}

/// every prefix of every such schedule at every node of `obs` that is not faulty
fn linear<X: Dk>(ctx: &Ctx, w: &DWorld<X>, w2: &DWorld<X>, sp: &FSpec, rots: &[usize], obs: &[usize]) {
    let ends: Mutex<BTreeMap<usize, MKey<X::S, X::P>>> = Mutex::new(BTreeMap::new());
    let quals: Mutex<BTreeMap<usize, (Vec<usize>, bool)>> = Mutex::new(BTreeMap::new());
    let obs: Vec<usize> = obs.iter().cloned().filter(|k| w.nodes.contains_key(k) && !sp.faulty.contains(k)).collect();
    par_items(&obs, |me| {
        let sc = build_scn(w, w2, sp, *me);
        let r = Ref::new(w, *me);
        let mut memo = HashMap::new();
        for p in schedules(&sc, rots) {
            let (mut g, mut s) = (w.nodes[me].clone(), r.init());
            ctx.eval();
            let mut good = true;
            for (k, e) in p.iter().enumerate() {
                let case = || json!({"suite": X::NAME, "scenario": sc.label, "observed": me, "events": p[..=k].iter().map(|i| sc.ev[*i].id.clone()).collect::<Vec<_>>()});
                let b = &sc.ev[*e].b;
                let got = match apply::<X>(&mut g, b, &format!("e{e}")) {
                    Err(x) => {
                        ctx.fail(&format!("panic-{}", cat(b)), x, case());
                        good = false;
                        break;
                    }
                    Ok(x) => x,
                };
                let want = r.step(&mut s, b);
                ctx.st(1);
                ctx.tr(1);
                good &= judge_out::<X>(ctx, &sc, &r, b, &want, &got, &sc.ev[*e].id, &case);
                good &= judge_state(ctx, &sc, &r, &s, &g, &case, &mut memo);
                if !good {
                    break;
                }
            }
            if !good {
                break;
            }
            let case = || json!({"suite": X::NAME, "scenario": sc.label, "observed": me});
            let q = (r.qual(&s), r.keyed(&s));
            let old = quals.lock().unwrap().insert(*me, q.clone());
            ctx.check(old.is_none() || old == Some(q), "order-matters", "the same messages in another order lead to another conclusion", case);
            if r.keyed(&s) {
                if let Ok(Ok(k)) = guard(|| X::key(&g)) {
                    ends.lock().unwrap().insert(*me, k);
                }
            }
        }
    });
    let q = quals.into_inner().unwrap();
    ctx.check(q.values().all(|x| x.0 == q.values().next().unwrap().0), "nodes-disagree", "nodes that saw every message disagree on the qualified dealers", || json!({"suite": X::NAME, "scenario": sp.label, "conclusions": format!("{q:?}")}));
    let e: Vec<MKey<X::S, X::P>> = ends.into_inner().unwrap().into_values().collect();
    if let Some(f) = e.first() {
        ctx.check(e.iter().all(|k| k.commits == f.commits), "keys-disagree", "nodes that saw every message hold shares of different keys", || json!({"suite": X::NAME, "scenario": sp.label}));
        // every run of consecutive holders, of every size
        for k in 1..=e.len() {
            for i in 0..e.len() {
                let ss: Vec<MShare<X::S>> = (0..k).map(|j| e[(i + j) % e.len()].share.clone()).collect();
                let r = guard(|| X::recover(&ss, w.t, w.nh()));
                let ok = match &r {
                    Ok(Ok(x)) => k >= w.t && X::pt(x) == f.commits[0],
                    Ok(Err(_)) => k < w.t,
                    Err(_) => false,
                };
                ctx.check(ok, "reconstruction", "exactly the sets of at least t shares give the discrete logarithm of the public key", || json!({"scenario": sp.label, "suite": X::NAME, "holders": ss.iter().map(|s| s.i).collect::<Vec<_>>(), "t": w.t}));
            }
        }
    }
}

fn many_faults(n: usize, all: bool) -> Vec<FSpec> {
    let mut v = vec![];
    let last = n - 1;
    for f in if all { (0..n).collect::<Vec<_>>() } else { vec![0, 10 % n, last] } {
        // a node that never says anything
        let mut s = FSpec::honest(&format!("silent={f}"), 0);
        s.faulty = vec![f];
        for h in 0..n {
            s.kinds.insert((f, h), "missing".into());
            s.resp.insert((f, h), "none".into());
        }
        s.resp.remove(&(f, f));
        v.push(s);
        // wrong shares for the first and the last of the others
        let hs: Vec<usize> = (0..n).filter(|h| *h != f).collect();
        for j in ["good", "wrong", "none"] {
            let mut s = FSpec::honest(&format!("faulty={f} wrong shares for {} and {}, justification={j}", hs[0], hs[n - 2]), 0);
            s.faulty = vec![f];
            s.kinds.insert((f, hs[0]), "share+1".into());
            s.kinds.insert((f, hs[n - 2]), "share-of-other".into());
            s.just.insert(f, j.into());
            v.push(s);
        }
        // complaints about everybody, answered by the dealers
        let mut s = FSpec::honest(&format!("faulty={f} complains about everybody"), 0);
        s.faulty = vec![f];
        for d in hs {
            s.resp.insert((f, d), "complaint".into());
        }
        v.push(s);
    }
    v
}

fn many_fresh<X: Dk>(ctx: &Ctx, sizes: &[(usize, usize)], faulty: bool) {
    for (n, t) in sizes {
        let ix: Vec<usize> = (0..*n).collect();
        let b = |s| DWorld::<X>::build(&ix, &ix, *t, 0, true, &[], s, &[]);
        let (w, w2) = (b(1), b(2));
        let rots = if ctx.thorough() && *n < 13 { ix.clone() } else { vec![0, 1, n - 1] };
        if !faulty {
            let mut s = FSpec::honest(&format!("many: honest n={n} t={t}"), 0);
            s.lossless = true;
            linear(ctx, &w, &w2, &s, &rots, &if *n < 13 { ix.clone() } else { vec![0, 1, n / 2, n - 2, n - 1] });
            continue;
        }
        for mut s in many_faults(*n, ctx.thorough()) {
            s.label = format!("many: n={n} t={t} {}", s.label);
            linear(ctx, &w, &w2, &s, &[0, n - 1], &[0, 1, n - 2, n - 1]);
        }
    }
    ctx.bound(format!("(participants, threshold) in {sizes:?}: every prefix of complete schedules grouped by dealer or by holder, deals before or after the answers, in both directions and rotated"));
}

fn many_reshare<X: Dk>(ctx: &Ctx) {
    let rng = |a: usize, b: usize| -> Vec<usize> { (a..b).collect() };
    let mut v: Vec<(Vec<usize>, Vec<usize>, usize, usize, Vec<usize>)> = vec![
        (rng(0, 11), rng(0, 11), 6, 6, vec![]),
        (rng(0, 11), rng(9, 20), 4, 7, vec![]),
        (rng(0, 9), rng(0, 12), 5, 8, vec![]),
        (rng(0, 12), rng(3, 11), 8, 5, vec![10]),
        (rng(0, 11), (0..11).rev().collect(), 6, 6, vec![0]),
    ];
    if ctx.thorough() {
        v.push((rng(0, 16), rng(8, 24), 9, 9, vec![]));
        v.push((rng(0, 11), rng(0, 11), 11, 11, vec![]));
        v.push((rng(0, 11), rng(0, 11), 2, 2, vec![10]));
        v.push((rng(0, 3), rng(3, 16), 2, 9, vec![]));
        v.push((rng(0, 13), rng(11, 14), 7, 2, vec![12]));
    }
    for (old, new, old_t, t, wrong) in &v {
        let b = |s| DWorld::<X>::build(old, new, *t, *old_t, false, wrong, s, &[]);
        let (w, w2) = (b(1), b(2));
        let mut sps = vec![FSpec::honest("honest", 0)];
        let mut s = FSpec::honest("the last old node is silent as a dealer, the last new one as a holder", 0);
        s.faulty = vec![old[old.len() - 1], new[new.len() - 1]];
        for h in 0..new.len() {
            s.kinds.insert((old.len() - 1, h), "missing".into());
        }
        for d in 0..old.len() {
            s.resp.insert((new[new.len() - 1], d), "none".into());
        }
        sps.push(s);
        for mut sp in sps {
            sp.label = format!("many: old {old:?} t={old_t} -> new {new:?} t={t}, wrong {wrong:?}: {}", sp.label);
            for d in wrong {
                sp.faulty.push(old[*d]);
            }
            let obs: Vec<usize> = {
                let mut o = vec![old[0], old[1], old[old.len() - 2], new[0], new[1], new[new.len() / 2], new[new.len() - 2], new[new.len() - 1]];
                o.sort();
                o.dedup();
                o
            };
            linear(ctx, &w, &w2, &sp, &[0, w.nd().max(w.nh()) - 1], &obs);
        }
    }
    ctx.bound("groups of up to 12 (thorough 16) members: every prefix of complete schedules grouped by dealer or by holder, in both directions and rotated");
}

/// the explorations of C29 (save and restore)
pub fn c29(ctx: &Ctx) {
    fn fplans(ctx: &Ctx, ed: bool) -> Vec<Plan> {
        let mut plans = vec![];
        for (n, t) in if ed { vec![(2, 2)] } else { vec![(2, 2), (3, 2), (3, 3)] } {
            plans.push(Plan { n, t, spec: FSpec::honest(&format!("honest n={n} t={t}"), if ctx.thorough() { 0 } else { 1 }), replay: false });
        }
        if ed {
            return plans;
        }
        let mut s = FSpec::honest("honest n=3 t=2, forged messages", 2);
        s.bad = true;
        plans.push(Plan { n: 3, t: 2, spec: s, replay: false });
        for ka in ["share+1", "missing", "sid-garbage", "second", "commit+1", "t+1"] {
            for j in ["good", "wrong", "none"] {
                for r in ["ok", "complaint", "none"] {
                    if !ctx.thorough() && r != "ok" && ka != "share+1" {
                        continue;
                    }
                    let mut s = FSpec::honest(&format!("faulty=2 deals={ka} justification={j} responses={r}"), 1);
                    s.faulty = vec![2];
                    s.kinds.insert((2, 0), ka.to_string());
                    s.just.insert(2, j.into());
                    for d in 0..2 {
                        s.resp.insert((2, d), r.into());
                    }
                    plans.push(Plan { n: 3, t: 2, spec: s, replay: false });
                }
            }
        }
        plans
    }
    fn rplans(ctx: &Ctx, ed: bool) -> Vec<RPlan> {
        let mut plans = vec![];
        for (on, nn) in if ed { vec![(2, 2)] } else { vec![(2, 2), (3, 2), (2, 3)] } {
            for sh in shapes(on, nn) {
                if ed && sh.0 != "disjoint" && sh.0 != "one-stays" {
                    continue;
                }
                let mut sps = vec![FSpec::honest("honest", if on + nn == 4 || ctx.thorough() { 1 } else { 2 })];
                for (k, j) in [("share+1", "good"), ("share+1", "wrong"), ("second", "none")] {
                    let mut sp = FSpec::honest(&format!("faulty dealer 0 deals {k}, justification {j}"), 1);
                    sp.faulty = vec![sh.1[0]];
                    let h = (0..nn).find(|h| sh.2[*h] != sh.1[0]).unwrap();
                    sp.kinds.insert((0, h), k.into());
                    sp.just.insert(0, j.into());
                    if !ed {
                        sps.push(sp);
                    }
                }
                for mut sp in sps {
                    sp.label = format!("reshare {}: old {:?} -> new {:?}; {}", sh.0, sh.1, sh.2, sp.label);
                    plans.push(RPlan { dealers: sh.1.clone(), holders: sh.2.clone(), t: 2, old_t: 2, wrong: vec![], spec: sp, replay: false, dup: false });
                }
            }
        }
        plans
    }
    run_fresh::<DkToy, DkEd>(ctx, &fplans(ctx, false), 0);
    run_reshare::<DkToy, DkEd>(ctx, &rplans(ctx, false), 0);
    run_fresh::<DkEd, DkToy>(ctx, &fplans(ctx, true), 0);
    run_reshare::<DkEd, DkToy>(ctx, &rplans(ctx, true), 0);
}
