//! C32: messages of one session are refused in every other. All pairs of sessions of a family x every kind of
//! message x every receiver x every state of the receiver's own session.
use crate::canon::{canon, canon_masked};
use crate::engine::*;
use crate::p_crash::{step, Step};
use crate::p_dkg::{DWorld, Dk, DkEd, DkToy};
use crate::p_dss::{key_of, Ds, DsEdP, DsToyP, DsToyR, MPart, SS};
use crate::p_rab::{after_phase1, false_sc, RWorld, Rb, RbEd, RbToy, P1};
use crate::p_vss::{PedEd, PedToy, RabEd, RabToy, Sch};
use crate::toy::*;
use kyber_rs::share::dkg::pedersen::structs as ps;
use kyber_rs::share::dkg::rabin as rb;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};

/// a receiver of session b in every state of its own run
struct Recv<N> {
    who: String,
    states: Vec<(Vec<String>, N)>,
    mask: bool,
    /// the rest of its run, which must go on as if nothing had happened (a state may change internally)
    rest: Vec<Step<N>>,
}
impl<N: Clone + Serialize> Recv<N> {
    /// `first`: always delivered; `then`: every subset of these, in order
    fn new(ctx: &Ctx, who: String, n: N, first: &[(String, Step<N>)], then: &[(String, Step<N>)], mask: bool) -> Recv<N> {
        let mut states = vec![];
        let mut seen = HashSet::new();
        for m in 0..1u32 << then.len() {
            let mut g = n.clone();
            let mut h = vec![];
            for (k, (nm, f)) in first.iter().chain(then).enumerate() {
                if k >= first.len() && m & (1 << (k - first.len())) == 0 {
                    continue;
                }
                h.push(nm.clone());
                match guard(|| f(&mut g)) {
                    Ok(Ok(_)) => {}
                    // a node that has not complained cannot answer complaints etc.: such a state is the one without
                    Ok(Err(_)) => {
                        h.pop();
                    }
                    Err(p) => ctx.fail("panic-own", p, json!({"receiver": who, "history": h})),
                }
            }
            if seen.insert(if mask { canon_masked(&g) } else { canon(&g) }) {
                states.push((h, g));
            }
        }
        ctx.st(states.len() as u64);
        Recv { who, states, mask, rest: vec![] }
    }
    fn fp(&self, n: &N) -> u128 {
        if self.mask {
            canon_masked(n)
        } else {
            canon(n)
        }
    }
    fn refuse(&self, ctx: &Ctx, kind: &str, foreign: &[(String, Step<N>)], about: &Value) {
        for (h, n) in &self.states {
            let before = self.fp(n);
            for (nm, f) in foreign {
                ctx.eval();
                ctx.tr(1);
                ctx.nontriv();
                let mut g = n.clone();
                let case = || json!({"sessions": about, "receiver": self.who, "received in its own session": h, "foreign message": nm});
                match guard(|| f(&mut g)) {
                    Err(p) => ctx.fail(&format!("panic-{kind}"), p, case()),
                    // no longer needed: neither answered nor stored
                    Ok(Ok(a)) if a.is_empty() && self.fp(&g) == before => ctx.outcome(&format!("{kind} ignored")),
                    Ok(Ok(_)) => ctx.fail(&format!("accepted-{kind}"), format!("a {kind} of another session is accepted"), case()),
                    Ok(Err(_)) => {
                        ctx.outcome(&format!("{kind} refused"));
                        let mut same = self.fp(&g) == before;
                        if !same && !self.rest.is_empty() {
                            let mut u = n.clone();
                            let end = |x: &mut N| self.rest.iter().map(|f| guard(|| f(x))).collect::<Vec<_>>();
                            same = end(&mut u) == end(&mut g) && self.fp(&u) == self.fp(&g);
                        }
                        ctx.check(same, &format!("refused-but-changed-{kind}"), "the refused message of another session changed the receiver", case);
                    }
                }
            }
        }
    }
}
/// the same message pretending to be of another session: only the (signed) session id is replaced
fn relabel<T: Serialize + DeserializeOwned>(m: &T, from: &[u8], to: &[u8]) -> Option<T> {
    fn rec(v: &mut Value, from: &Value, to: &Value) {
        match v {
            x if *x == *from => *x = to.clone(),
            Value::Array(a) => a.iter_mut().for_each(|x| rec(x, from, to)),
            Value::Object(o) => o.values_mut().for_each(|x| rec(x, from, to)),
            _ => {}
        }
    }
    let mut v = serde_json::to_value(m).ok()?;
    rec(&mut v, &json!(from), &json!(to));
    serde_json::from_value(v).ok()
}

// ------------------------------------------------------------------------------------------------
// verifiable secret sharing

struct Sess<Y: Sch> {
    name: String,
    dealer_key: usize,
    ids: Vec<usize>,
    t: usize,
    dealer: Y::D,
    sid: Vec<u8>,
}
fn key<Y: Sch>(i: usize) -> Y::S {
    Y::sc(1_000_003 + 7919 * i as i64)
}
impl<Y: Sch> Sess<Y> {
    fn new(name: &str, dealer_key: usize, ids: &[usize], secret: i64, t: usize, coins: &str) -> Self {
        let pubs: Vec<Y::P> = ids.iter().map(|i| Y::pt(&key::<Y>(*i))).collect();
        seed_rng(coins);
        let dealer = Y::dealer(&key::<Y>(dealer_key), &Y::sc(secret), &pubs, t).expect("dealer");
        let sid = Y::d_sid(&dealer);
        Sess { name: name.into(), dealer_key, ids: ids.to_vec(), t, dealer, sid }
    }
    fn pubs(&self) -> Vec<Y::P> {
        self.ids.iter().map(|i| Y::pt(&key::<Y>(*i))).collect()
    }
    fn verifier(&self, pos: usize) -> Y::V {
        Y::verifier(&key::<Y>(self.ids[pos]), &Y::pt(&key::<Y>(self.dealer_key)), &self.pubs()).expect("verifier")
    }
    fn enc(&self, pos: usize) -> Y::ED {
        seed_rng("enc");
        Y::enc(&self.dealer, pos).expect("enc")
    }
    fn resp(&self, pos: usize, ok: bool) -> Y::R {
        seed_rng("resp");
        Y::resp_signed(&self.sid, pos as u32, ok, &key::<Y>(self.ids[pos]))
    }
    fn just(&self, pos: usize) -> Y::J {
        seed_rng("just");
        Y::d_resp(&mut self.dealer.clone(), &self.resp(pos, false)).expect("complaint").expect("justification")
    }
}
fn family<Y: Sch>() -> Vec<Sess<Y>> {
    let s = |n: &str, d: usize, ids: &[usize], sec: i64, t: usize, coins: &str| Sess::<Y>::new(n, d, ids, sec, t, coins);
    vec![
        s("base", 10, &[0, 1, 2], 4242, 2, "A"),
        s("same again, other coins", 10, &[0, 1, 2], 4242, 2, "B"),
        s("other secret", 10, &[0, 1, 2], 4243, 2, "A"),
        s("secret of opposite sign", 10, &[0, 1, 2], -4242, 2, "A"),
        s("other dealer", 11, &[0, 1, 2], 4242, 2, "A"),
        s("dealer among the verifiers", 0, &[0, 1, 2], 4242, 2, "A"),
        s("other threshold", 10, &[0, 1, 2], 4242, 3, "A"),
        s("one more verifier", 10, &[0, 1, 2, 3], 4242, 2, "A"),
        s("one verifier replaced", 10, &[0, 1, 3], 4242, 2, "A"),
        s("verifiers in another order", 10, &[1, 0, 2], 4242, 2, "A"),
        s("verifiers rotated", 10, &[2, 0, 1], 4242, 2, "A"),
        s("fewer verifiers", 10, &[0, 1], 4242, 2, "A"),
        s("zero secret", 10, &[0, 1, 2], 0, 2, "A"),
        s("five verifiers", 10, &[0, 1, 2, 3, 4], 4242, 3, "A"),
        s("five verifiers, other threshold", 10, &[0, 1, 2, 3, 4], 4242, 4, "A"),
    ]
}
fn vss<Y: Sch>(ctx: &Ctx, take: usize) {
    let fam = family::<Y>();
    let mask = Y::NAME.contains("ed25519");
    let deal = |e: Y::ED| step(e, |v: &mut Y::V, e| Y::v_deal(v, e).map(|r| format!("{:?}", Y::rparts(&r).2)));
    let resp = |r: Y::R| step(r, |v: &mut Y::V, r| Y::v_resp(v, r).map(|_| String::new()));
    let jus = |j: Y::J| step(j, |v: &mut Y::V, j| Y::v_just(v, j).map(|_| String::new()));
    // one session id per sharing, the same for everybody
    for (i, a) in fam.iter().enumerate() {
        for b in &fam[..i] {
            ctx.eval();
            ctx.nontriv();
            ctx.check(a.sid != b.sid, "same-session-id", "two different sharings have the same session id", || json!({"scheme": Y::NAME, "sessions": [a.name, b.name]}));
        }
        for pos in 0..a.ids.len() {
            ctx.eval();
            let mut v = a.verifier(pos);
            let r = guard(|| Y::v_deal(&mut v, &a.enc(pos)));
            let case = || json!({"scheme": Y::NAME, "session": a.name, "verifier": pos});
            match r {
                Ok(Ok(r)) => {
                    let (sid, ix, ok, _) = Y::rparts(&r);
                    ctx.check(sid == a.sid && ix as usize == pos && ok, "session-id-differs", "a verifier computes another session id than its dealer", case);
                    let m = Y::plain(&mut a.dealer.clone(), pos).unwrap();
                    ctx.check(m.session_id == a.sid, "session-id-differs-in-deal", "the deal carries another session id", case);
                }
                r => ctx.fail("own-deal-refused", format!("{:?}", r.map(|x| x.map(|_| ()))), case()),
            }
        }
    }
    let jobs: Vec<usize> = (0..fam.len().min(take)).collect();
    par_items(&jobs, |bi| {
        let b = &fam[*bi];
        for pos in 0..b.ids.len() {
            let fresh = Recv::new(ctx, format!("{} verifier {pos} of '{}' before its deal", Y::NAME, b.name), b.verifier(pos), &[], &[], mask);
            let mut then = vec![];
            for v in (0..b.ids.len()).filter(|v| *v != pos).take(3) {
                then.push((format!("approval {v}"), resp(b.resp(v, true))));
                if then.len() == 1 {
                    then.push((format!("complaint {v}"), resp(b.resp(v, false))));
                    then.push((format!("justification {v}"), jus(b.just(v))));
                }
            }
            let after = Recv::new(ctx, format!("{} verifier {pos} of '{}'", Y::NAME, b.name), b.verifier(pos), &[("own deal".into(), deal(b.enc(pos)))], &then, mask);
            // a verifier that complained about its own deal
            let mut m = Y::plain(&mut b.dealer.clone(), pos).unwrap();
            m.sec_share.v = m.sec_share.v + Y::sc(1);
            let mut bd = b.dealer.clone();
            Y::set_plain(&mut bd, pos, &m);
            seed_rng("bad");
            let be = Y::enc(&bd, pos).expect("enc");
            let complained = Recv::new(ctx, format!("{} verifier {pos} of '{}' after its complaint", Y::NAME, b.name), b.verifier(pos), &[("bad deal".into(), deal(be))], &then, mask);
            for (ai, a) in fam.iter().enumerate() {
                if ai == *bi {
                    continue;
                }
                let about = json!({"scheme": Y::NAME, "from": a.name, "into": b.name});
                let mut deals = vec![];
                let mut rs = vec![];
                let mut js = vec![];
                for v in 0..a.ids.len() {
                    let e = a.enc(v);
                    deals.push((format!("deal for {v}"), deal(e)));
                    for ok in [true, false] {
                        let r = a.resp(v, ok);
                        rs.push((format!("response of {v} ({ok})"), resp(r.clone())));
                        if let Some(r) = relabel(&r, &a.sid, &b.sid) {
                            rs.push((format!("response of {v} ({ok}), relabelled"), resp(r)));
                        }
                    }
                    js.push((format!("justification for {v}"), jus(a.just(v))));
                }
                for r in [&after, &complained] {
                    r.refuse(ctx, "deal", &deals, &about);
                    r.refuse(ctx, "response", &rs, &about);
                    r.refuse(ctx, "justification", &js, &about);
                }
                // before any deal only the dealer and the participants tell sessions apart
                if a.dealer_key != b.dealer_key || a.ids != b.ids {
                    fresh.refuse(ctx, "deal", &deals, &about);
                } else {
                    let others: Vec<_> = deals.iter().enumerate().filter(|(v, _)| *v != pos).map(|(_, d)| d.clone()).collect();
                    fresh.refuse(ctx, "deal", &others, &about);
                }
            }
        }
        // the dealer of b
        let dresp = |r: Y::R| step(r, |d: &mut Y::D, r| Y::d_resp(d, r).map(|_| String::new()));
        let mut then = vec![];
        for v in 0..b.ids.len().min(3) {
            then.push((format!("approval {v}"), dresp(b.resp(v, true))));
            then.push((format!("complaint {v}"), dresp(b.resp(v, false))));
        }
        let d = Recv::new(ctx, format!("{} dealer of '{}'", Y::NAME, b.name), b.dealer.clone(), &[], &then, mask);
        for (ai, a) in fam.iter().enumerate() {
            if ai == *bi {
                continue;
            }
            let mut rs = vec![];
            for v in 0..a.ids.len() {
                for ok in [true, false] {
                    let r = a.resp(v, ok);
                    rs.push((format!("response of {v} ({ok})"), dresp(r.clone())));
                    if let Some(r) = relabel(&r, &a.sid, &b.sid) {
                        rs.push((format!("response of {v} ({ok}), relabelled"), dresp(r)));
                    }
                }
            }
            d.refuse(ctx, "response to the dealer", &rs, &json!({"scheme": Y::NAME, "from": a.name, "into": b.name}));
        }
    });
    // shares of different sharings are not combined
    for (ai, a) in fam.iter().enumerate() {
        for (bi, b) in fam.iter().enumerate() {
            if ai == bi {
                continue;
            }
            let d = |s: &Sess<Y>, v: usize| Y::plain(&mut s.dealer.clone(), v).unwrap();
            for mix in 1..b.t.min(a.ids.len()) + 1 {
                // the first `mix` deals are foreign
                let list: Vec<_> = (0..b.ids.len()).map(|v| if v < mix && v < a.ids.len() { d(a, v) } else { d(b, v) }).collect();
                if list.iter().all(|x| x.session_id == list[0].session_id) {
                    continue;
                }
                ctx.eval();
                ctx.nontriv();
                let r = guard(|| Y::recover(&list, b.ids.len(), b.t));
                ctx.check(matches!(r, Ok(Err(_))), "mixed-deals-recovered", "deals of different sharings must not be combined to a secret", || json!({"scheme": Y::NAME, "sessions": [a.name, b.name], "foreign": mix}));
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------
// key generation and resharing

struct Run<X: Dk> {
    name: String,
    w: DWorld<X>,
    /// responses[d][h]
    resps: Vec<Vec<Option<ps::Response>>>,
}
fn runs<X: Dk>() -> Vec<Run<X>> {
    let f = |n: &str, ids: &[usize], t: usize, seed: u64| (n.to_string(), DWorld::<X>::build(ids, ids, t, 0, true, &[], seed, &[]));
    let r = |n: &str, old: &[usize], new: &[usize], t: usize, ot: usize, seed: u64| (n.to_string(), DWorld::<X>::build(old, new, t, ot, false, &[], seed, &[]));
    vec![
        f("base", &[0, 1, 2], 2, 1),
        f("same again", &[0, 1, 2], 2, 2),
        f("other threshold", &[0, 1, 2], 3, 3),
        f("another order", &[1, 0, 2], 2, 4),
        f("one node replaced", &[0, 1, 3], 2, 5),
        f("one node more", &[0, 1, 2, 3], 2, 6),
        r("resharing to the same", &[0, 1, 2], &[0, 1, 2], 2, 2, 7),
        r("resharing to the same again", &[0, 1, 2], &[0, 1, 2], 2, 2, 8),
        r("resharing of another key", &[0, 1, 2], &[0, 1, 2], 2, 2, 107),
        r("resharing to others", &[0, 1, 2], &[1, 2, 3], 2, 2, 9),
        r("resharing from others", &[1, 2, 3], &[0, 1, 2], 2, 2, 10),
    ]
    .into_iter()
    .map(|(name, w)| {
        let resps = (0..w.nd())
            .map(|d| {
                (0..w.nh())
                    .map(|h| {
                        if w.fresh && w.dealers[d] == w.holders[h] {
                            return None;
                        }
                        let mut g = w.nodes[&w.holders[h]].clone();
                        seed_rng("rs");
                        X::on_deal(&mut g, w.deals[d].get(&h)?).ok()
                    })
                    .collect()
            })
            .collect();
        Run { name, w, resps }
    })
    .collect()
}
fn dkg<X: Dk>(ctx: &Ctx, pairs: &(dyn Fn(usize, usize) -> bool + Sync)) {
    let rs = runs::<X>();
    let mask = X::NAME.contains("ed25519");
    let on_deal = |d: X::Deal| step(d, |g: &mut X::G, d| X::on_deal(g, d).map(|r| format!("{}", r.response.status)));
    let on_resp = |r: ps::Response| step(r, |g: &mut X::G, r| X::on_resp(g, r).map(|j| if j.is_some() { "justification".into() } else { String::new() }));
    let on_just = |j: X::J| step(j, |g: &mut X::G, j| X::on_just(g, j).map(|_| String::new()));
    let mut sids: BTreeMap<Vec<u8>, String> = BTreeMap::new();
    for r in &rs {
        for (d, s) in r.w.sids.iter().enumerate() {
            ctx.eval();
            if let Some(o) = sids.insert(s.clone(), format!("{} dealer {d}", r.name)) {
                ctx.fail("same-session-id", "two different sharings have the same session id", json!({"suite": X::NAME, "sessions": [o, r.name], "dealer": d}));
            }
            for (h, x) in r.resps[d].iter().enumerate() {
                if let Some(x) = x {
                    ctx.check(x.response.session_id == *s, "session-id-differs", "a holder computes another session id than the dealer", || json!({"suite": X::NAME, "run": r.name, "dealer": d, "holder": h}));
                }
            }
        }
    }
    let mut jobs = vec![];
    for b in 0..rs.len() {
        for me in rs[b].w.nodes.keys() {
            jobs.push((b, *me));
        }
    }
    par_items(&jobs, |(bi, me)| {
        let b = &rs[*bi];
        let w = &b.w;
        let mh = w.holders.iter().position(|k| k == me);
        let mut first = vec![];
        let mut then = vec![];
        for d in 0..w.nd() {
            // (in a resharing also its own deal)
            if let Some(m) = mh.and_then(|h| w.deals[d].get(&h)) {
                first.push((format!("deal of {d}"), on_deal(m.clone())));
            }
        }
        let cd = w.dealers.iter().position(|k| k != me);
        for d in 0..w.nd() {
            for h in 0..w.nh() {
                let Some(r) = &b.resps[d][h] else { continue };
                if w.holders[h] == *me {
                    continue;
                }
                if Some(d) == cd && then.len() < 3 {
                    seed_rng("c");
                    let c = X::resp(d as u32, &w.sids[d], h as u32, false, &w.keys[w.holders[h]]);
                    then.push((format!("complaint of {h} about {d}"), on_resp(c.clone())));
                    if let Some(j) = X::craft_just(w.dealer_node(d), d as u32, &c, None) {
                        then.push((format!("justification of {d}"), on_just(j)));
                    }
                } else if then.len() < 6 {
                    then.push((format!("response of {h} about {d}"), on_resp(r.clone())));
                }
            }
        }
        let mut recv = Recv::new(ctx, format!("{} node {me} of '{}'", X::NAME, b.name), w.nodes[me].clone(), &first, &then, mask);
        if mh.is_none() {
            recv.rest = b.resps.iter().flatten().flatten().map(|r| on_resp(r.clone())).collect();
        }
        for (ai, a) in rs.iter().enumerate() {
            if ai == *bi || !pairs(ai, *bi) {
                continue;
            }
            let about = json!({"suite": X::NAME, "from": a.name, "into": b.name});
            let (mut ds, mut rr, mut js) = (vec![], vec![], vec![]);
            // a node leaving the group receives no deals: it only knows the session of its own sharing
            let knows = |d: usize| mh.is_some() || w.dealers.get(d) == Some(me) || d >= w.nd();
            for d in 0..a.w.nd() {
                for h in 0..a.w.nh() {
                    if let Some(m) = a.w.deals[d].get(&h) {
                        ds.push((format!("deal of {d} for {h}"), on_deal(m.clone())));
                    }
                    if let Some(r) = &a.resps[d][h] {
                        seed_rng("c");
                        let c = X::resp(d as u32, &a.w.sids[d], h as u32, false, &a.w.keys[a.w.holders[h]]);
                        // about another dealer, as the numbering may differ
                        for e in 0..w.nd() {
                            if e != d && knows(e) {
                                rr.push((format!("complaint of {h} about {d}, addressed to {e}"), on_resp(ps::Response { index: e as u32, response: c.response.clone() })));
                            }
                        }
                        if !knows(d) {
                            continue;
                        }
                        rr.push((format!("approval of {h} about {d}"), on_resp(r.clone())));
                        if d < w.nd() {
                            if let Some(q) = relabel(r, &a.w.sids[d], &w.sids[d]) {
                                rr.push((format!("approval of {h} about {d}, relabelled"), on_resp(q)));
                            }
                        }
                        rr.push((format!("complaint of {h} about {d}"), on_resp(c.clone())));
                        if d < w.nd() {
                            if let Some(q) = relabel(&c, &a.w.sids[d], &w.sids[d]) {
                                rr.push((format!("complaint of {h} about {d}, relabelled"), on_resp(q)));
                            }
                        }
                        if let Some(j) = X::craft_just(a.w.dealer_node(d), d as u32, &c, None) {
                            js.push((format!("justification of {d} for {h}"), on_just(j)));
                        }
                    }
                }
            }
            recv.refuse(ctx, "deal", &ds, &about);
            recv.refuse(ctx, "response", &rr, &about);
            recv.refuse(ctx, "justification", &js, &about);
        }
    });
}

// ------------------------------------------------------------------------------------------------
// the second key generation

fn rabin<X: Rb>(ctx: &Ctx, upto: usize) {
    let mask = X::NAME.contains("ed25519");
    let ws: Vec<(String, RWorld<X>)> = vec![
        ("base".into(), RWorld::build_with(&[0, 1, 2], 2, 1)),
        ("same again".into(), RWorld::build_with(&[0, 1, 2], 2, 2)),
        ("other threshold".into(), RWorld::build_with(&[0, 1, 2], 3, 1)),
        ("another order".into(), RWorld::build_with(&[1, 0, 2], 2, 1)),
        ("one node replaced".into(), RWorld::build_with(&[0, 1, 3], 2, 1)),
        ("one node more".into(), RWorld::build_with(&[0, 1, 2, 3], 2, 1)),
    ];
    let on_deal = |d: X::Deal| step(d, |g: &mut X::G, d| X::on_deal(g, d).map(|r| format!("{}", r.response.approved)));
    let on_resp = |r: rb::Response| step(r, |g: &mut X::G, r| X::on_resp(g, r).map(|j| if j.is_some() { "justification".into() } else { String::new() }));
    let on_just = |j: X::J| step(j, |g: &mut X::G, j| X::on_just(g, j).map(|_| String::new()));
    let on_sc = |m: crate::p_rab::Sc<X>| step(m, |g: &mut X::G, m| X::on_sc(g, m).map(|r| if r.is_some() { "complaint".into() } else { String::new() }));
    let on_cc = |m: crate::p_rab::Cc<X>| step(m, |g: &mut X::G, m| X::on_cc(g, m).map(|_| "share".into()));
    let on_rc = |m: crate::p_rab::Rc<X>| step(m, |g: &mut X::G, m| X::on_rc(g, m).map(|_| String::new()));
    let mut sids: BTreeMap<Vec<u8>, String> = BTreeMap::new();
    for (n, w) in &ws {
        for (d, s) in w.sids.iter().enumerate() {
            ctx.eval();
            if let Some(o) = sids.insert(s.clone(), format!("{n} dealer {d}")) {
                ctx.fail("same-session-id", "two different sharings have the same session id", json!({"suite": X::NAME, "sessions": [o, n], "dealer": d}));
            }
        }
    }
    let resp = |w: &RWorld<X>, d: usize, v: usize, ok: bool| {
        seed_rng("r");
        X::resp(d as u32, &w.sids[d], v as u32, ok, &w.keys[v])
    };
    // what each session sends in both phases
    struct Mat<N> {
        deals: Vec<(String, Step<N>)>,
        resps: Vec<(String, Step<N>)>,
        justs: Vec<(String, Step<N>)>,
        scs: Vec<(String, Step<N>)>,
        ccs: Vec<(String, Step<N>)>,
        rcs: Vec<(String, Step<N>)>,
    }
    let p1done: Vec<Vec<X::G>> = ws.iter().map(|(_, w)| after_phase1(w, w, &P1::default(), false).expect("phase 1").into_iter().map(|g| g.unwrap()).collect()).collect();
    let mats: Vec<Mat<X::G>> = ws
        .iter()
        .enumerate()
        .map(|(wi, (_, w))| {
            let mut m = Mat { deals: vec![], resps: vec![], justs: vec![], scs: vec![], ccs: vec![], rcs: vec![] };
            for d in 0..w.n {
                for v in 0..w.n {
                    if v == d {
                        continue;
                    }
                    m.deals.push((format!("deal of {d} for {v}"), on_deal(w.deals[d][&v].clone())));
                    m.resps.push((format!("approval of {v} about {d}"), on_resp(resp(w, d, v, true))));
                    let c = resp(w, d, v, false);
                    m.resps.push((format!("complaint of {v} about {d}"), on_resp(c.clone())));
                    for e in 0..w.n {
                        if e != d {
                            m.resps.push((format!("complaint of {v} about {d}, addressed to {e}"), on_resp(rb::Response { index: e as u32, response: c.response.clone() })));
                        }
                    }
                    if let Some(j) = X::craft_just(&w.nodes[d], &c, None) {
                        m.justs.push((format!("justification of {d} for {v}"), on_just(j)));
                    }
                }
                for kind in ["true", "constant+1"] {
                    let s = false_sc::<X>(w, d, kind).unwrap();
                    m.scs.push((format!("commitments of {d} ({kind})"), on_sc(s.clone())));
                    if kind == "true" {
                        continue;
                    }
                    for v in (0..w.n).filter(|v| *v != d) {
                        let mut g = p1done[wi][v].clone();
                        seed_rng("cc");
                        if let Ok(Some(cc)) = X::on_sc(&mut g, &s) {
                            m.ccs.push((format!("complaint of {v} about the commitments of {d}"), on_cc(cc.clone())));
                            seed_rng("rc");
                            if let Ok(rc) = X::on_cc(&mut g, &cc) {
                                m.rcs.push((format!("share of {d} revealed by {v}"), on_rc(rc)));
                            }
                        }
                    }
                }
            }
            m
        })
        .collect();
    for m in &mats {
        ctx.check(!m.ccs.is_empty() && !m.rcs.is_empty() && !m.justs.is_empty(), "no-material", "a run produced no complaint or revealed share", || json!(X::NAME));
    }
    let mut jobs = vec![];
    for b in 0..ws.len().min(upto) {
        for me in 0..ws[b].1.n {
            jobs.push((b, me));
        }
    }
    par_items(&jobs, |(bi, me)| {
        let (bn, w) = &ws[*bi];
        let me = *me;
        let others: Vec<usize> = (0..w.n).filter(|d| *d != me).collect();
        let first: Vec<_> = others.iter().map(|d| (format!("deal of {d}"), on_deal(w.deals[*d][&me].clone()))).collect();
        let mut then = vec![];
        let (cd, cv) = (others[0], others[1]);
        let c = resp(w, cd, cv, false);
        then.push((format!("complaint of {cv} about {cd}"), on_resp(c.clone())));
        if let Some(j) = X::craft_just(&w.nodes[cd], &c, None) {
            then.push((format!("justification of {cd}"), on_just(j)));
        }
        for d in 0..w.n {
            for v in (0..w.n).filter(|v| *v != d && *v != me && (d, *v) != (cd, cv)) {
                if then.len() < 6 {
                    then.push((format!("approval of {v} about {d}"), on_resp(resp(w, d, v, true))));
                }
            }
        }
        let ph1 = Recv::new(ctx, format!("{} node {me} of '{bn}', phase 1", X::NAME), w.nodes[me].clone(), &first, &then, mask);
        // phase 2, with the false commitments of one dealer, complaints and revealed shares
        let f = others[0];
        let mut then2: Vec<(String, Step<X::G>)> = vec![(
            "own commitments".into(),
            std::sync::Arc::new(|g: &mut X::G| {
                seed_rng("own");
                X::secret_commits(g).map(|_| String::new())
            }),
        )];
        let fs = false_sc::<X>(w, f, "constant+1").unwrap();
        then2.push((format!("false commitments of {f}"), on_sc(fs.clone())));
        for v in others.iter().filter(|v| **v != f) {
            then2.push((format!("commitments of {v}"), on_sc(false_sc::<X>(w, *v, "true").unwrap())));
            let mut g = p1done[*bi][*v].clone();
            seed_rng("cc");
            if let Ok(Some(cc)) = X::on_sc(&mut g, &fs) {
                then2.push((format!("complaint of {v}"), on_cc(cc.clone())));
                seed_rng("rc");
                if let Ok(rc) = X::on_cc(&mut g, &cc) {
                    then2.push((format!("share revealed by {v}"), on_rc(rc)));
                }
            }
        }
        then2.truncate(6);
        let ph2 = Recv::new(ctx, format!("{} node {me} of '{bn}', phase 2", X::NAME), p1done[*bi][me].clone(), &[], &then2, mask);
        for (ai, (an, _)) in ws.iter().enumerate() {
            if ai == *bi {
                continue;
            }
            let about = json!({"suite": X::NAME, "from": an, "into": bn});
            let m = &mats[ai];
            for r in [&ph1, &ph2] {
                r.refuse(ctx, "deal", &m.deals, &about);
                r.refuse(ctx, "response", &m.resps, &about);
                r.refuse(ctx, "justification", &m.justs, &about);
                r.refuse(ctx, "secret commitment", &m.scs, &about);
                r.refuse(ctx, "complaint about commitments", &m.ccs, &about);
                r.refuse(ctx, "reconstruction share", &m.rcs, &about);
            }
        }
    });
}

// ------------------------------------------------------------------------------------------------
// threshold signing

fn signing<X: Ds>(ctx: &Ctx) {
    type K<X> = <X as Ds>::K;
    let mask = X::NAME.contains("ed25519");
    let sc = |v: i64| <K<X> as Dk>::sc(v);
    let poly = |c: &[i64]| -> Vec<SS<X>> { c.iter().map(|x| sc(*x)).collect() };
    struct S<T> {
        name: &'static str,
        ids: Vec<usize>,
        l: Vec<T>,
        r: Vec<T>,
        msg: &'static [u8],
        t: usize,
    }
    let (l, r) = (poly(&[1_000_003, 99_991]), poly(&[7_000_003, 88_883]));
    let s = |name, ids: &[usize], l: &[SS<X>], r: &[SS<X>], msg, t| S { name, ids: ids.to_vec(), l: l.to_vec(), r: r.to_vec(), msg, t };
    let fam = vec![
        s("base", &[0, 1, 2], &l, &r, b"message", 2),
        s("other message", &[0, 1, 2], &l, &r, b"messagf", 2),
        s("longer message", &[0, 1, 2], &l, &r, b"message\0", 2),
        s("empty message", &[0, 1, 2], &l, &r, b"", 2),
        s("other nonce", &[0, 1, 2], &l, &poly(&[7_000_004, 88_883]), b"message", 2),
        s("nonce with another slope", &[0, 1, 2], &l, &poly(&[7_000_003, 88_884]), b"message", 2),
        s("other key", &[0, 1, 2], &poly(&[1_000_004, 99_991]), &r, b"message", 2),
        s("key with another slope", &[0, 1, 2], &poly(&[1_000_003, 99_992]), &r, b"message", 2),
        s("keys swapped", &[0, 1, 2], &r, &l, b"message", 2),
        s("higher threshold", &[0, 1, 2], &poly(&[1_000_003, 99_991, 5]), &poly(&[7_000_003, 88_883, 5]), b"message", 3),
        s("participants in another order", &[1, 0, 2], &l, &r, b"message", 2),
        s("participants rotated", &[2, 0, 1], &l, &r, b"message", 2),
    ];
    let keyof = |i: usize| sc(51_337 + 7919 * i as i64);
    let signer = |s: &S<SS<X>>, pos: usize| {
        let pubs: Vec<_> = s.ids.iter().map(|i| <K<X> as Dk>::pt(&keyof(*i))).collect();
        seed_rng("dss");
        X::new(&keyof(s.ids[pos]), &pubs, &key_of::<X>(&s.l, pos), &key_of::<X>(&s.r, pos), s.msg, s.t).expect("signer")
    };
    let parts: Vec<Vec<MPart<SS<X>>>> = fam
        .iter()
        .map(|s| {
            (0..3)
                .map(|p| {
                    seed_rng("partial");
                    X::partial(&mut signer(s, p)).expect("partial")
                })
                .collect()
        })
        .collect();
    let on = |m: MPart<SS<X>>| step(m, |g: &mut X::G, m| X::process(g, m).map(|_| String::new()));
    for (bi, b) in fam.iter().enumerate() {
        for pos in 0..3 {
            let mut then: Vec<(String, Step<X::G>)> = vec![(
                "own".into(),
                std::sync::Arc::new(|g: &mut X::G| {
                    seed_rng("own");
                    X::partial(g).map(|_| String::new())
                }),
            )];
            for v in (0..3).filter(|v| *v != pos) {
                then.push((format!("partial of {v}"), on(parts[bi][v].clone())));
            }
            let recv = Recv::new(ctx, format!("{} signer {pos} of '{}'", X::NAME, b.name), signer(b, pos), &[], &then, mask);
            let sid = X::sid(&signer(b, pos));
            for (ai, a) in fam.iter().enumerate() {
                if ai == bi {
                    continue;
                }
                let mut ms = vec![];
                for v in 0..3 {
                    let p = &parts[ai][v];
                    // what another session's signer sent may by its content be the very partial of this one
                    if p.session_id == sid && a.ids[v] == b.ids[v] && p.partial.v == parts[bi][v].partial.v {
                        continue;
                    }
                    ms.push((format!("partial of {v}"), on(p.clone())));
                    if p.session_id != sid {
                        ms.push((format!("partial of {v}, relabelled"), on(MPart { session_id: sid.clone(), ..p.clone() })));
                    }
                }
                recv.refuse(ctx, "partial signature", &ms, &json!({"suite": X::NAME, "from": a.name, "into": b.name}));
            }
        }
    }
}

pub fn c32(ctx: &Ctx) -> i32 {
    vss::<PedToy>(ctx, 99);
    vss::<RabToy>(ctx, 99);
    vss::<PedEd>(ctx, ctx.pick(3, 99));
    vss::<RabEd>(ctx, ctx.pick(3, 99));
    dkg::<DkToy>(ctx, &|_, _| true);
    let th = ctx.thorough();
    dkg::<DkEd>(ctx, &move |a, b| th || (a < 2 && b < 2));
    rabin::<RbToy>(ctx, 99);
    rabin::<RbEd>(ctx, ctx.pick(1, 99));
    signing::<DsToyP>(ctx);
    signing::<DsToyR>(ctx);
    signing::<DsEdP>(ctx);
    ctx.bound("15 sharings per scheme, 11 key generations and resharings, 6 runs of the second key generation, 12 signing sessions: all ordered pairs x every message x every receiver x every subset of up to 6 messages its own session delivered");
    0
}
