//! C13: threshold Schnorr signing. One observed signer is the real code; every order of partial
//! signatures (genuine, repeated, forged, foreign) and own signing is explored to closure.
use crate::engine::*;
use crate::p_rab::{keys_of_run, RKey, Rb, RbEd, RbToy};
use crate::p_dkg::{eval_commits, full_run, horner, DWorld, Dk, DkEd, DkToy, MKey};
use crate::p_vss::{canon, conv, MShare};
use crate::toy::*;
use kyber_rs::encoding::BinaryMarshaler;
use kyber_rs::group::edwards25519::SuiteEd25519;
use kyber_rs::share::dkg::pedersen::structs as ps;
use kyber_rs::share::dkg::rabin as rb;
use kyber_rs::sign::{dss, eddsa, schnorr};
use kyber_rs::{Group, Scalar};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::json;
use sha2::{Digest, Sha512};
use std::collections::{BTreeSet, HashMap};
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MPart<S> {
    pub partial: MShare<S>,
    pub session_id: Vec<u8>,
    pub signature: Vec<u8>,
}

pub trait Ds: Clone + Sync + Send + 'static {
    const NAME: &'static str;
    type K: Dk;
    type G: Clone + Serialize + DeserializeOwned + Send + Sync;
    fn new(secret: &SS<Self>, parts: &[PP<Self>], long: &Key<Self>, rnd: &Key<Self>, msg: &[u8], t: usize) -> Result<Self::G, String>;
    fn partial(g: &mut Self::G) -> Result<MPart<SS<Self>>, String>;
    fn process(g: &mut Self::G, p: &MPart<SS<Self>>) -> Result<(), String>;
    fn enough(g: &Self::G) -> bool;
    fn signature(g: &Self::G) -> Result<Vec<u8>, String>;
    fn sid(g: &Self::G) -> Vec<u8>;
    /// the partial signature, serialised and read back
    fn round(ctx: &Ctx, p: &MPart<SS<Self>>) -> MPart<SS<Self>>;
    fn sign(p: &MPart<SS<Self>>, key: &SS<Self>) -> MPart<SS<Self>>;
    fn verify(pk: &PP<Self>, msg: &[u8], sig: &[u8]) -> Result<(), String>;
    /// H(R || A || msg) as a scalar, computed here
    fn challenge(r: &PP<Self>, a: &PP<Self>, msg: &[u8]) -> SS<Self>;
}
pub type SS<X> = <<X as Ds>::K as Dk>::S;
pub type PP<X> = <<X as Ds>::K as Dk>::P;
pub type Key<X> = MKey<SS<X>, PP<X>>;

macro_rules! ds {
    ($t:ident, $name:expr, $k:ty, $suite:ty, $mk:expr, $dks:ty) => {
        #[derive(Clone)]
        pub struct $t;
        impl Ds for $t {
            const NAME: &'static str = $name;
            type K = $k;
            type G = dss::DSS<$suite, $dks>;
            fn new(secret: &SS<Self>, parts: &[PP<Self>], long: &Key<Self>, rnd: &Key<Self>, msg: &[u8], t: usize) -> Result<Self::G, String> {
                let (l, r): ($dks, $dks) = (conv(long), conv(rnd));
                dss::new_dss($mk, secret, parts, &l, &r, msg, t).map_err(|e| format!("{e:?}"))
            }
            fn partial(g: &mut Self::G) -> Result<MPart<SS<Self>>, String> {
                g.partial_sig().map(|p| conv(&p)).map_err(|e| format!("{e:?}"))
            }
            fn process(g: &mut Self::G, p: &MPart<SS<Self>>) -> Result<(), String> {
                let q: dss::PartialSig<$suite> = conv(p);
                g.process_partial_sig(q).map_err(|e| format!("{e:?}"))
            }
            fn enough(g: &Self::G) -> bool {
                g.enough_partial_sig()
            }
            fn signature(g: &Self::G) -> Result<Vec<u8>, String> {
                g.signature().map_err(|e| format!("{e:?}"))
            }
            fn sid(g: &Self::G) -> Vec<u8> {
                g.session_id.clone()
            }
            fn round(ctx: &Ctx, p: &MPart<SS<Self>>) -> MPart<SS<Self>> {
                let q: dss::PartialSig<$suite> = conv(p);
                crate::p_save::round(ctx, "partial", &q, &|| json!({"engine": $name})).map(|q| conv(&q)).unwrap_or(p.clone())
            }
            fn sign(p: &MPart<SS<Self>>, key: &SS<Self>) -> MPart<SS<Self>> {
                let q: dss::PartialSig<$suite> = conv(p);
                let mut r = p.clone();
                r.signature = schnorr::sign(&$mk, key, &q.hash($mk).expect("hash")).expect("sign");
                r
            }
            fn verify(pk: &PP<Self>, msg: &[u8], sig: &[u8]) -> Result<(), String> {
                // the EdDSA verifier is for 32-byte encodings only
                if sig.len() == 64 {
                    eddsa::verify(pk, msg, sig).map_err(|e| format!("eddsa {e:?}"))?;
                    dss::verify(pk, msg, sig).map_err(|e| format!("dss {e:?}"))?;
                }
                schnorr::verify($mk, pk, msg, sig).map_err(|e| format!("schnorr {e:?}"))
            }
            fn challenge(r: &PP<Self>, a: &PP<Self>, msg: &[u8]) -> SS<Self> {
                let mut h = Sha512::new();
                h.update(r.marshal_binary().unwrap());
                h.update(a.marshal_binary().unwrap());
                h.update(msg);
                $mk.scalar().set_bytes(&h.finalize())
            }
        }
    };
}
ds!(DsToyP, "toy/pedersen", DkToy, Toy<M61>, Toy::<M61>, ps::DistKeyShare<Toy<M61>>);
ds!(DsToyR, "toy/rabin", DkToy, Toy<M61>, Toy::<M61>, rb::DistKeyShare<Toy<M61>>);
ds!(DsEdP, "ed25519/pedersen", DkEd, SuiteEd25519, SuiteEd25519::new_blake3_sha256_ed25519(), ps::DistKeyShare<SuiteEd25519>);
ds!(DsEdR, "ed25519/rabin", DkEd, SuiteEd25519, SuiteEd25519::new_blake3_sha256_ed25519(), rb::DistKeyShare<SuiteEd25519>);

pub struct SWorld<X: Ds> {
    pub n: usize,
    pub keys: Vec<SS<X>>,
    pub pubs: Vec<PP<X>>,
    pub lpoly: Vec<SS<X>>,
    pub rpoly: Vec<SS<X>>,
}
fn sc<X: Ds>(v: i64) -> SS<X> {
    <X::K as Dk>::sc(v)
}
fn pt<X: Ds>(s: &SS<X>) -> PP<X> {
    <X::K as Dk>::pt(s)
}
pub fn key_of<X: Ds>(poly: &[SS<X>], i: usize) -> Key<X> {
    MKey {
        commits: poly.iter().map(|c| pt::<X>(c)).collect(),
        share: MShare { i, v: horner(poly, sc::<X>(i as i64 + 1), sc::<X>(0)) },
        private_poly: vec![],
    }
}
impl<X: Ds> SWorld<X> {
    pub fn new(n: usize, ll: usize, lr: usize, seed: i64) -> Self {
        let keys: Vec<SS<X>> = (0..n).map(|i| sc::<X>(51_337 + 7919 * i as i64)).collect();
        let pubs = keys.iter().map(|k| pt::<X>(k)).collect();
        SWorld {
            n,
            keys,
            pubs,
            lpoly: (0..ll).map(|i| sc::<X>(1_000_003 + seed * 131 + 99_991 * i as i64)).collect(),
            rpoly: (0..lr).map(|i| sc::<X>(7_000_003 + seed * 257 + 88_883 * i as i64)).collect(),
        }
    }
    pub fn signer(&self, i: usize, msg: &[u8], t: usize) -> Result<X::G, String> {
        seed_rng("dss");
        X::new(&self.keys[i], &self.pubs, &key_of::<X>(&self.lpoly, i), &key_of::<X>(&self.rpoly, i), msg, t)
    }
    pub fn h(&self, msg: &[u8]) -> SS<X> {
        X::challenge(&pt::<X>(&self.rpoly[0]), &pt::<X>(&self.lpoly[0]), msg)
    }
    /// the value participant i's partial must have
    pub fn value(&self, i: usize, msg: &[u8]) -> SS<X> {
        let x = sc::<X>(i as i64 + 1);
        self.h(msg) * horner(&self.lpoly, x.clone(), sc::<X>(0)) + horner(&self.rpoly, x, sc::<X>(0))
    }
    pub fn expected(&self, msg: &[u8]) -> Vec<u8> {
        let mut b = pt::<X>(&self.rpoly[0]).marshal_binary().unwrap();
        let g = self.h(msg) * self.lpoly[0].clone() + self.rpoly[0].clone();
        b.extend(g.marshal_binary().unwrap());
        b
    }
}

/// one message and what it must do: Some(i) = genuine partial of i
pub struct Msg<S> {
    pub name: String,
    pub m: MPart<S>,
    pub genuine: Option<usize>,
}

pub fn messages<X: Ds>(w: &SWorld<X>, t: usize, msg: &[u8], full: bool) -> Vec<Msg<SS<X>>> {
    let mut out: Vec<Msg<SS<X>>> = vec![];
    let parts: Vec<MPart<SS<X>>> = (0..w.n)
        .map(|i| {
            seed_rng(&format!("partial{i}"));
            X::partial(&mut w.signer(i, msg, t).expect("signer")).expect("partial")
        })
        .collect();
    for i in 0..w.n {
        out.push(Msg { name: format!("genuine {i}"), m: parts[i].clone(), genuine: Some(i) });
    }
    // other sessions
    let w2 = SWorld::<X>::new(w.n, w.lpoly.len(), w.rpoly.len(), 5);
    let other = |l: &[SS<X>], r: &[SS<X>], m: &[u8], i: usize| -> Option<MPart<SS<X>>> {
        seed_rng("other");
        let tt = l.len().max(r.len());
        X::partial(&mut X::new(&w.keys[i], &w.pubs, &key_of::<X>(l, i), &key_of::<X>(r, i), m, tt).ok()?).ok()
    };
    let sid = parts[0].session_id.clone();
    // genuine exactly when signer, value and session are those of participant i, whatever the origin
    let mut add = |name: String, m: MPart<SS<X>>, by: Option<usize>| {
        let genuine = by.filter(|i| m.partial.i == *i && m.partial.v == w.value(*i, msg) && m.session_id == sid);
        out.push(Msg { name, m, genuine })
    };
    for i in 0..w.n {
        let p = &parts[i];
        seed_rng(&format!("re-signed{i}"));
        add(format!("re-signed {i}"), X::sign(p, &w.keys[i]), Some(i));
        let signed = |f: &dyn Fn(&mut MPart<SS<X>>), by: usize| {
            let mut q = p.clone();
            f(&mut q);
            seed_rng("forge");
            X::sign(&q, &w.keys[by])
        };
        let j = (i + 1) % w.n;
        add(format!("value+1 {i}"), signed(&|q| q.partial.v = q.partial.v.clone() + sc::<X>(1), i), Some(i));
        if !full && i > 1 {
            continue;
        }
        add(format!("value 0 {i}"), signed(&|q| q.partial.v = sc::<X>(0), i), Some(i));
        add(format!("value of {j} as {i}"), signed(&|q| q.partial.v = parts[j].partial.v.clone(), i), Some(i));
        add(format!("own value as {j}, signed by {i}"), signed(&|q| q.partial.i = j, i), Some(i));
        add(format!("partial of {i} signed by {j}"), signed(&|_| (), j), Some(j));
        if j != i {
            add(format!("index changed to {j}, signature kept"), { let mut q = p.clone(); q.partial.i = j; q }, None);
        }
        for ix in [w.n, w.n + 1, i + w.n, usize::MAX, usize::MAX - 1, 1 << 32, (1 << 32) + i, i.wrapping_sub(1).max(w.n)] {
            if ix >= w.n {
                add(format!("index {ix} signed by {i}"), signed(&|q| q.partial.i = ix, i), None);
                let v = horner(&w.lpoly, sc::<X>((ix as i64).wrapping_add(1)), sc::<X>(0)) * w.h(msg) + horner(&w.rpoly, sc::<X>((ix as i64).wrapping_add(1)), sc::<X>(0));
                add(format!("index {ix} with its polynomial value, signed by {i}"), signed(&|q| { q.partial.i = ix; q.partial.v = v.clone() }, i), None);
            }
        }
        // session id faults, signed again
        for (k, f) in [("empty", vec![]), ("short", p.session_id[..31].to_vec()), ("long", [p.session_id.clone(), vec![0]].concat()), ("zero", vec![0; 32])] {
            add(format!("session id {k} {i}"), signed(&|q| q.session_id = f.clone(), i), None);
        }
        for b in 0..p.session_id.len() {
            if full || b == 0 || b == p.session_id.len() - 1 {
                add(format!("session id byte {b} {i}"), signed(&|q| q.session_id[b] ^= 1, i), None);
            }
        }
        // signature faults
        for (k, f) in [("empty", vec![]), ("short", p.signature[..p.signature.len() - 1].to_vec()), ("long", [p.signature.clone(), vec![0]].concat()), ("of another", parts[j].signature.clone())] {
            if j != i || k != "of another" {
                add(format!("signature {k} {i}"), MPart { signature: f, ..p.clone() }, None);
            }
        }
        for b in 0..p.signature.len() {
            if full || b % 31 == 0 {
                let mut q = p.clone();
                q.signature[b] ^= 1;
                add(format!("signature byte {b} {i}"), q, None);
            }
        }
        // other sessions of the same people
        let (l, r) = (&w.lpoly, &w.rpoly);
        let mut foreign = vec![
            ("other message", other(l, r, b"another message", i)),
            ("message with a suffix", other(l, r, &[msg, b"x"].concat(), i)),
            ("other long-term key", other(&w2.lpoly, r, msg, i)),
            ("other nonce", other(l, &w2.rpoly, msg, i)),
            ("keys swapped", other(r, l, msg, i)),
            ("nonce used as key too", other(r, r, msg, i)),
        ];
        // the same list of commitments cut at another place
        if l.len() > 1 {
            let cut: Vec<SS<X>> = [vec![l[l.len() - 1].clone()], r.clone()].concat();
            foreign.push(("commitments cut elsewhere", other(&l[..l.len() - 1], &cut, msg, i)));
        }
        if r.len() > 1 {
            let cut: Vec<SS<X>> = [l.clone(), vec![r[0].clone()]].concat();
            foreign.push(("commitments cut elsewhere (2)", other(&cut, &r[1..], msg, i)));
        }
        for (k, f) in foreign {
            if let Some(f) = f {
                // ... as sent, and pretending to be of this session
                add(format!("{k} {i}"), f.clone(), Some(i));
                seed_rng("f");
                add(format!("{k} {i}, session id replaced"), X::sign(&MPart { session_id: p.session_id.clone(), ..f }, &w.keys[i]), Some(i));
            }
        }
    }
    out
}

#[derive(Clone)]
struct St<G> {
    g: G,
    held: BTreeSet<usize>,
}

/// explore one observed signer to closure
pub fn explore_signer<X: Ds>(ctx: &Ctx, w: &SWorld<X>, me: usize, t: usize, msg: &[u8], msgs: &[Msg<SS<X>>], sigs: &Mutex<BTreeSet<Vec<u8>>>, paths: Option<&Mutex<Vec<Vec<usize>>>>, keep: usize) {
    let case = |path: &[usize], ev: &str| {
        let names: Vec<String> = path.iter().map(|e| if *e == usize::MAX { "sign".to_string() } else { msgs[*e].name.clone() }).collect();
        json!({"engine": X::NAME, "n": w.n, "t": t, "degree_long": w.lpoly.len(), "degree_nonce": w.rpoly.len(), "signer": me, "message": hex::encode(msg), "history": names, "event": ev})
    };
    let g0 = match w.signer(me, msg, t) {
        Ok(g) => g,
        Err(e) => {
            ctx.fail("signer-refused", format!("a participant cannot create its signer: {e}"), case(&[], "new"));
            return;
        }
    };
    let want = w.expected(msg);
    let pk = pt::<X>(&w.lpoly[0]);
    ctx.check(X::verify(&pk, msg, &want).is_ok(), "expected-signature-invalid", "the signature under the shared key and nonce must verify", || case(&[], "verify"));
    let own = w.value(me, msg);
    let twins = crate::p_save::Twins::new(X::NAME);
    let ev2: Vec<_> = if ctx.restoring() { msgs.iter().map(|m| X::round(ctx, &m.m)).collect() } else { vec![] };
    let obs = |g: &X::G| format!("{:?}", (X::enough(g), guard(|| X::signature(g).map_err(|_| "no signature"))));
    let mut cnt = 0usize;
    let first_ok = std::cell::Cell::new(false);
    let (ns, nt, complete) = bfs(
        vec![St { g: g0, held: BTreeSet::new() }],
        200_000,
        |s| (canon(&s.g), s.held.clone()),
        |s, path| {
            cnt += 1;
            ctx.eval();
            let e = X::enough(&s.g);
            ctx.check(e == (s.held.len() >= t), "enough-wrong", "enough_partial_sig must be true exactly when t distinct partials are held", || case(path, &format!("held {:?}, answer {e}", s.held)));
            match guard(|| X::signature(&s.g)) {
                Err(p) => ctx.fail("signature-panic", format!("signature() panicked: {p}"), case(path, "signature")),
                Ok(Ok(b)) => {
                    ctx.check(s.held.len() >= t, "signature-early", "no signature may be released with fewer than t distinct partials", || case(path, &format!("held {:?}", s.held)));
                    ctx.check(b == want, "signature-wrong", "the signature must be the one of the shared key and nonce", || case(path, &hex::encode(&b)));
                    if !first_ok.get() {
                        first_ok.set(true);
                        let v = X::verify(&pk, msg, &b);
                        ctx.check(v.is_ok(), "signature-invalid", "the signature must verify under the group key", || case(path, &format!("{v:?}")));
                        ctx.check(X::verify(&pk, b"not that", &b).is_err(), "signature-other-message", "the signature must not verify for another message", || case(path, "verify other"));
                    }
                    sigs.lock().unwrap().insert(b);
                    ctx.nontriv();
                    ctx.outcome("signature");
                }
                Ok(Err(_)) => {
                    ctx.check(s.held.len() < t, "signature-missing", "with t distinct partials a signature must be produced", || case(path, &format!("held {:?}", s.held)));
                }
            }
            if let Some(p) = paths {
                if keep > 0 && cnt % keep == 0 {
                    p.lock().unwrap().push(path.to_vec());
                }
            }
        },
        |s, path| {
            let mut out = vec![];
            let base = s.g.clone();
            // own signing
            {
                let act = |g: &mut X::G| {
                    seed_rng("own");
                    guard(|| X::partial(g))
                };
                let mut g = base.clone();
                let r = act(&mut g);
                if ctx.restoring() {
                    let short = |r: &Result<Result<_, String>, String>| r.as_ref().map(|x| x.as_ref().map(|p| twins.fp(p)).map_err(|_| ())).map_err(|_| ());
                    twins.step(ctx, path, usize::MAX, &s.g, &g, &short(&r), &|g: &mut X::G| short(&act(g)), &obs, &|| case(path, "sign"));
                    if let Ok(Ok(p)) = &r {
                        X::round(ctx, p);
                    }
                }
                match r {
                    Err(p) => ctx.fail("partial-panic", p, case(path, "sign")),
                    Ok(Err(e)) => ctx.fail("partial-refused", e, case(path, "sign")),
                    Ok(Ok(p)) => {
                        ctx.check(p.partial.i == me && p.partial.v == own, "partial-wrong", "a signer's partial must be its share of the signature", || case(path, "sign"));
                        let mut held = s.held.clone();
                        held.insert(me);
                        out.push((usize::MAX, St { g, held }));
                    }
                }
            }
            for (k, m) in msgs.iter().enumerate() {
                let mut g = base.clone();
                let r = guard(|| X::process(&mut g, &m.m));
                if ctx.restoring() {
                    let short = |r: &Result<Result<_, String>, String>| r.as_ref().map(|x| x.is_ok()).map_err(|_| ());
                    twins.step(ctx, path, k, &s.g, &g, &short(&r), &|g: &mut X::G| short(&guard(|| X::process(g, &ev2[k]))), &obs, &|| case(path, &m.name));
                }
                let r = match r {
                    Err(p) => {
                        ctx.fail("process-panic", format!("process_partial_sig panicked: {p}"), case(path, &m.name));
                        continue;
                    }
                    Ok(r) => r,
                };
                let ok = m.genuine.map_or(false, |i| !s.held.contains(&i));
                let kind = m.name.split(' ').next().unwrap_or("").to_string();
                if r.is_ok() != ok {
                    let (key, what) = if !ok && m.genuine.is_some() {
                        ("duplicate-accepted".to_string(), "a repeated partial must be refused")
                    } else if !ok {
                        (format!("forged-accepted-{kind}"), "a partial that is not genuine for this session must be refused")
                    } else {
                        ("genuine-refused".to_string(), "a genuine partial must be accepted")
                    };
                    ctx.fail(&key, format!("{what}: {:?}", r), case(path, &m.name));
                }
                ctx.outcome(if ok { "accepted" } else { "refused" });
                let mut held = s.held.clone();
                if ok {
                    held.insert(m.genuine.unwrap());
                }
                if ok || canon(&g) != canon(&s.g) {
                    out.push((k, St { g, held }));
                }
            }
            ctx.evals_add(msgs.len() as u64);
            out
        },
    );
    ctx.st(ns);
    ctx.tr(nt);
    if !complete {
        ctx.fail("state-bound", "state space not closed within the bound", case(&[], ""));
    }
}

fn plans(ctx: &Ctx, real: bool) -> Vec<(usize, usize, usize, usize)> {
    let mut v = vec![];
    let nmax = if ctx.restoring() { ctx.pick(3, 4) - real as usize } else if real { ctx.pick(3, 4) } else { ctx.pick(4, 5) };
    for n in 1..=nmax {
        for ll in 1..=n {
            for lr in 1..=n {
                if n > 3 && real && ll != lr {
                    continue;
                }
                if n > 4 && ll != lr {
                    continue;
                }
                for t in ll.max(lr)..=n + 1 {
                    v.push((n, ll, lr, t));
                }
            }
        }
    }
    v
}

pub fn run<X: Ds>(ctx: &Ctx, real: bool) {
    let ps = plans(ctx, real);
    let mut items: Vec<(usize, usize, usize, usize, usize)> = vec![];
    for (n, ll, lr, t) in ps {
        for me in 0..n {
            if real && me != 0 && me != n - 1 && !ctx.thorough() {
                continue;
            }
            items.push((n, ll, lr, t, me));
        }
    }
    items.sort_by_key(|x| std::cmp::Reverse(x.0));
    let sets: Mutex<HashMap<(usize, usize, usize), BTreeSet<Vec<u8>>>> = Mutex::new(HashMap::new());
    par_items(&items, |(n, ll, lr, t, me)| {
        let w = SWorld::<X>::new(*n, *ll, *lr, 0);
        let msgs_for: &[&[u8]] = if *n <= 2 { &[b"", b"a message"] } else { &[b"a message"] };
        for msg in msgs_for {
            let msgs = messages(&w, *t, msg, *n == 3 && *t == 2 && ll == lr);
            let sigs = Mutex::new(BTreeSet::new());
            explore_signer::<X>(ctx, &w, *me, *t, msg, &msgs, &sigs, None, 0);
            let s = sigs.into_inner().unwrap();
            ctx.check(*t > *n || s.len() == 1, "no-signature-reached", "some history must reach the signature", || json!({"engine": X::NAME, "n": n, "t": t}));
            if *msg == b"a message" {
                sets.lock().unwrap().entry((*n, *ll, *lr)).or_default().extend(s);
            }
        }
    });
    for (k, s) in sets.into_inner().unwrap() {
        ctx.check(s.len() <= 1, "signers-disagree", "every signer and every threshold must give the same signature", || json!({"engine": X::NAME, "config": format!("{k:?}")}));
    }
    configs::<X>(ctx);
}

/// configurations that cannot give a valid signature must be refused when the signer is created
fn configs<X: Ds>(ctx: &Ctx) {
    for n in 1..=4usize {
        for ll in 0..=n {
            for lr in 0..=n {
                let w = SWorld::<X>::new(n, ll, lr, 0);
                for t in 0..=n + 1 {
                    for me in 0..n {
                        for (li, ri) in [(me, me), (me, (me + 1) % n), ((me + 1) % n, me), (me, n), (n, me), (usize::MAX, me)] {
                            ctx.eval();
                            let (mut l, mut r) = (key_of::<X>(&w.lpoly, li.min(n)), key_of::<X>(&w.rpoly, ri.min(n)));
                            l.share.i = li;
                            r.share.i = ri;
                            seed_rng("cfg");
                            let case = || json!({"engine": X::NAME, "n": n, "commitments_long": ll, "commitments_nonce": lr, "t": t, "me": me, "long_share_index": li, "nonce_share_index": ri});
                            let g = match guard(|| X::new(&w.keys[me], &w.pubs, &l, &r, b"m", t)) {
                                Err(p) => {
                                    ctx.fail("new-panic", format!("new_dss panicked: {p}"), case());
                                    continue;
                                }
                                Ok(g) => g,
                            };
                            let good = ll > 0 && lr > 0 && t >= ll.max(lr) && li == me && ri == me;
                            if good && t <= n {
                                ctx.check(g.is_ok(), "config-refused", "a usable configuration must be accepted", case);
                                ctx.nontriv();
                            }
                            if good {
                                continue;
                            }
                            // either refused now, or no wrong signature may ever come out
                            let Ok(g) = g else {
                                ctx.outcome("config refused");
                                continue;
                            };
                            let mut g = g;
                            let run = guard(|| {
                                let p = X::partial(&mut g)?;
                                for j in 0..n {
                                    if j == me || ll == 0 || lr == 0 {
                                        continue;
                                    }
                                    let q = MPart { partial: MShare { i: j, v: w.value(j, b"m") }, ..p.clone() };
                                    let _ = X::process(&mut g, &X::sign(&q, &w.keys[j]));
                                }
                                X::signature(&g)
                            });
                            match run {
                                Err(p) => ctx.fail("config-panic", format!("signing panicked: {p}"), case()),
                                Ok(Ok(s)) => {
                                    let v = if ll > 0 { X::verify(&pt::<X>(&w.lpoly[0]), b"m", &s) } else { Err("no key".into()) };
                                    ctx.check(v.is_ok(), "invalid-signature-released", "a released signature must be valid under the group key", || {
                                        let mut c = case();
                                        c["verify"] = json!(format!("{v:?}"));
                                        c
                                    });
                                }
                                Ok(Err(_)) => {}
                            }
                        }
                    }
                }
            }
        }
        // outsiders
        let w = SWorld::<X>::new(n, 1, 1, 0);
        for v in [0i64, 1, 424_242] {
            let k = sc::<X>(v);
            let g = guard(|| X::new(&k, &w.pubs, &key_of::<X>(&w.lpoly, 0), &key_of::<X>(&w.rpoly, 0), b"m", 1));
            ctx.check(matches!(g, Ok(Err(_))), "outsider-accepted", "a key that is not among the participants must be refused", || json!({"engine": X::NAME, "n": n, "secret": v}));
        }
    }
}

/// keys taken from real runs of the key generation: every subset of t signers in every order
fn real_keys<X: Ds>(ctx: &Ctx, n: usize, t: usize, long: &[Key<X>], rnd: &[Key<X>], keys: &[SS<X>], pubs: &[PP<X>], what: &str) {
    let msg = b"signed with generated keys";
    let pk = long[0].commits[0].clone();
    let mut all: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mk = |i: usize| {
        seed_rng(&format!("rk{i}"));
        X::new(&keys[i], pubs, &long[i], &rnd[i], msg, t)
    };
    let mut ps = vec![];
    for i in 0..n {
        match mk(i) {
            Ok(mut g) => ps.push(X::partial(&mut g).expect("partial")),
            Err(e) => {
                ctx.fail("generated-key-refused", e, json!({"engine": X::NAME, "source": what, "n": n, "t": t, "signer": i}));
                return;
            }
        }
    }
    // every order of every subset of t signers; of many signers, consecutive ones in both directions
    let orders: Vec<Vec<usize>> = if n <= 5 {
        subsets(n, t).iter().flat_map(|sub| perms(t).into_iter().map(move |pm| pm.iter().map(|k| sub[*k]).collect())).collect()
    } else {
        (0..n).flat_map(|r| [(0..t).map(|k| (r + k) % n).collect::<Vec<_>>(), (0..t).map(|k| (r + n - k) % n).collect()]).collect()
    };
    for me in 0..n {
        {
            for order in orders.iter() {
                ctx.eval();
                let case = || json!({"engine": X::NAME, "source": what, "n": n, "t": t, "signer": me, "order": order});
                let mut g = mk(me).expect("signer");
                for (k, i) in order.iter().enumerate() {
                    ctx.check(!X::enough(&g) && X::signature(&g).is_err(), "signature-early", "no signature may be released with fewer than t distinct partials", || { let mut c = case(); c["after"] = json!(k); c });
                    if *i == me {
                        let _ = X::partial(&mut g);
                    } else {
                        let r = X::process(&mut g, &ps[*i]);
                        ctx.check(r.is_ok(), "genuine-refused", "a genuine partial must be accepted", || { let mut c = case(); c["refused"] = json!(i); c });
                    }
                }
                match X::signature(&g) {
                    Ok(s) => {
                        if all.insert(s.clone()) {
                            let v = X::verify(&pk, msg, &s);
                            ctx.check(v.is_ok(), "signature-invalid", "the signature must verify under the group key", || { let mut c = case(); c["verify"] = json!(format!("{v:?}")); c });
                        }
                        ctx.nontriv();
                    }
                    Err(e) => ctx.fail("signature-missing", e, case()),
                }
            }
        }
    }
    ctx.check(all.len() == 1, "signers-disagree", "every signer must output the same signature", || json!({"engine": X::NAME, "source": what, "n": n, "t": t, "signatures": all.len()}));
    ctx.outcome(what);
}

fn pedersen_keys<X: Ds>(ctx: &Ctx, n: usize, t: usize) {
    let gen = |seed: u64| {
        let ids: Vec<usize> = (0..n).collect();
        let w = DWorld::<X::K>::build(&[], &ids, t, 0, true, &[], seed, &ids);
        let mut gs: Vec<_> = ids.iter().map(|i| w.nodes[i].clone()).collect();
        let k = full_run::<X::K>(&mut gs);
        (w, k)
    };
    let (w, a) = gen(4);
    let (_, b) = gen(9);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            for k in a.iter().chain(b.iter()) {
                let e = eval_commits::<X::K>(&k.commits, k.share.i as i64 + 1);
                ctx.check(e == pt::<X>(&k.share.v), "generated-share-mismatch", "a generated share must match the commitments", || json!({"engine": X::NAME}));
            }
            real_keys::<X>(ctx, n, t, &a, &b, &w.keys, &w.pubs, "pedersen key generation")
        }
        (a, b) => ctx.fail("key-generation-failed", format!("{:?} {:?}", a.err(), b.err()), json!({"engine": X::NAME, "n": n, "t": t})),
    }
}

fn rabin_keys<X: Ds, R: Rb<K = X::K>>(ctx: &Ctx, n: usize, t: usize) {
    // the nonce comes from an honest run, the long-term key from runs without and with an exposed dealer
    let b = keys_of_run::<R>(n, t, 5, None);
    for (what, f) in [("rabin key generation", None), ("rabin key generation with a reconstructed dealer", Some(n - 1))] {
        if f.is_some() && n - 1 < t {
            continue;
        }
        let mk = |k: &[RKey<R>]| -> Vec<Key<X>> { k.iter().map(|k| MKey { commits: k.commits.clone(), share: k.share.clone(), private_poly: vec![] }).collect() };
        match (keys_of_run::<R>(n, t, 3, f), &b) {
            (Ok((w, a)), Ok((_, b))) => real_keys::<X>(ctx, n, t, &mk(&a), &mk(b), &w.keys, &w.pubs, what),
            (a, b) => ctx.fail("key-generation-failed", format!("{:?} {:?}", a.err(), b.as_ref().err()), json!({"engine": X::NAME, "n": n, "t": t, "source": what})),
        }
    }
}

/// messages of every scale: complete runs, and partials over a message altered anywhere
fn long_messages<X: Ds>(ctx: &Ctx, hi: u32) {
    let w = SWorld::<X>::new(3, 2, 2, 0);
    let pk = pt::<X>(&w.lpoly[0]);
    par_items(&widths(7, hi), |&l| {
        let m: Vec<u8> = (0..l).map(|i| (i * 31 % 251) as u8).collect();
        let case = |what: &str, at: usize| json!({"engine": X::NAME, "length": l, "what": what, "at": at});
        let run = guard(|| {
            let mut a = w.signer(0, &m, 2)?;
            let _ = X::partial(&mut a)?;
            let mut b = w.signer(1, &m, 2)?;
            let p = X::partial(&mut b)?;
            X::process(&mut a.clone(), &p)?;
            Ok::<_, String>((a, p))
        });
        ctx.eval();
        let (a, p) = match run {
            Ok(Ok(x)) => x,
            e => {
                ctx.fail("long-message-refused", format!("{:?}", e.map(|r| r.map(|_| ()))), case("complete run", 0));
                return;
            }
        };
        ctx.nontriv();
        let mut g = a.clone();
        let _ = X::process(&mut g, &p);
        let sig = X::signature(&g).unwrap_or_default();
        ctx.check(sig == w.expected(&m) && X::verify(&pk, &m, &sig).is_ok(), "long-message-signature", "the signature must be the one of the whole message", || case("signature", 0));
        for i in crate::engine::places(l) {
            let mut x = m.clone();
            x[i] ^= 2;
            ctx.eval();
            ctx.check(X::verify(&pk, &x, &sig).is_err(), "long-message-other", "the signature verifies for another message", || case("verify", i));
            let q = guard(|| w.signer(1, &x, 2).and_then(|mut b| X::partial(&mut b)));
            if let Ok(Ok(q)) = q {
                ctx.check(X::process(&mut a.clone(), &q).is_err(), "long-message-foreign-partial", "a partial over another message was accepted", || case("partial", i));
            }
        }
    });
    ctx.outcome("long messages");
}

pub fn c13(ctx: &Ctx) -> i32 {
    long_messages::<DsToyP>(ctx, ctx.pick(16, 20));
    long_messages::<DsToyR>(ctx, ctx.pick(12, 16));
    long_messages::<DsEdP>(ctx, ctx.pick(14, 17));
    ctx.bound("messages of sizes around every power of two up to 2^16 (thorough 2^20), altered around every power of two from both ends");
    run::<DsToyP>(ctx, false);
    run::<DsToyR>(ctx, false);
    run::<DsEdP>(ctx, true);
    if ctx.thorough() {
        run::<DsEdR>(ctx, true);
    }
    for (n, t) in ctx.pick(vec![(2, 2), (3, 2), (4, 3)], vec![(2, 2), (3, 2), (3, 3), (4, 2), (4, 3), (4, 4), (5, 3)]) {
        pedersen_keys::<DsToyP>(ctx, n, t);
        pedersen_keys::<DsEdP>(ctx, n, t);
        rabin_keys::<DsToyR, RbToy>(ctx, n, t);
        rabin_keys::<DsEdR, RbEd>(ctx, n, t);
    }
    for (n, t) in ctx.pick(vec![(11, 6), (12, 12), (17, 3)], vec![(11, 2), (11, 6), (12, 12), (17, 3), (24, 13)]) {
        pedersen_keys::<DsToyP>(ctx, n, t);
        rabin_keys::<DsToyR, RbToy>(ctx, n, t);
    }
    ctx.bound("toy group (61-bit prime): n<=4 (thorough 5), every degree of both polynomials, every t from the degree bound to n+1, every observed signer; Ed25519 (observed signers 0 and n-1): n<=3 (thorough 4); every order of genuine, repeated, forged, foreign and out-of-range partials and own signing, to closure");
    ctx.bound("every configuration n<=4, 0<=t<=n+1, 0..n commitments of each key, matching and mismatching share indices");
    ctx.bound("keys from real key-generation runs (Pedersen, Rabin, Rabin with a reconstructed dealer): every subset of t signers, every order, every signer; of up to 17 (thorough 24) signers, consecutive ones in both directions");
    0
}

/// the explorations of C29 (save and restore)
pub fn c29(ctx: &Ctx) {
    run::<DsToyP>(ctx, false);
    run::<DsToyR>(ctx, false);
    run::<DsEdP>(ctx, true);
}
