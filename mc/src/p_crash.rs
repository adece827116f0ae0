//! C27: no message of a peer can crash a participant, and a refused message leaves it able to go on.
//! Every state reached by delivering any subset of the genuine messages of a run x every message that differs
//! from a genuine one by one structural fault (signed again by its sender wherever the sender could), followed
//! by the rest of the run and by every question a user may ask the node.
use crate::engine::*;
use crate::p_dkg::{DWorld, Dk, DkEd, DkToy};
use crate::p_dss::{Ds, DsEdP, DsToyP, DsToyR, SWorld};
use crate::p_rab::{after_phase1, false_sc, RWorld, Rb, RbEd, RbToy, P1};
use crate::p_vss::{MDeal, PedEd, PedToy, RabEd, RabToy, Sch, World};
use crate::toy::*;
use kyber_rs::share::dkg::pedersen::structs as ps;
use kyber_rs::share::dkg::rabin as rb;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------------------------------------
// structural faults

const NUMS: [u64; 22] = [0, 1, 2, 3, 4, 5, 7, 127, 128, 255, 256, 65535, 65536, 1 << 20, 1 << 30, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX];

/// every value that differs from v in one place, with the place
pub fn mutants(v: &Value, points: &[Value], full: bool) -> Vec<(String, Value)> {
    let mut out = vec![];
    rec(v, "", points, full, &mut |p, x| out.push((p, x)));
    let mut seen = HashSet::new();
    out.retain(|(_, x)| x != v && seen.insert(x.to_string()));
    out
}
fn rec(v: &Value, path: &str, points: &[Value], full: bool, emit: &mut dyn FnMut(String, Value)) {
    emit(format!("{path}=null"), Value::Null);
    match v {
        Value::Null => {}
        Value::Bool(b) => emit(format!("{path} flipped"), json!(!b)),
        Value::Number(n) => {
            for k in NUMS {
                emit(format!("{path}={k}"), json!(k));
            }
            if let Some(x) = n.as_u64() {
                emit(format!("{path}+1"), json!(x.wrapping_add(1)));
                emit(format!("{path}-1"), json!(x.wrapping_sub(1)));
                emit(format!("{path}+2^32"), json!(x.wrapping_add(1 << 32)));
            }
        }
        Value::String(s) => {
            for k in ["".to_string(), format!("{s}x"), "x".repeat(3)] {
                emit(format!("{path} string"), json!(k));
            }
        }
        Value::Array(a) => {
            let l = a.len();
            let bytes = l >= 8 && a.iter().all(|x| x.as_u64().map_or(false, |k| k < 256));
            let arr = |name: &str, x: Vec<Value>, emit: &mut dyn FnMut(String, Value)| emit(format!("{path} {name}"), Value::Array(x));
            arr("empty", vec![], emit);
            if l == 0 {
                for k in [1usize, 12, 16, 31, 32, 33, 64, 1000] {
                    arr(&format!("{k} zeros"), vec![json!(0); k], emit);
                }
                return;
            }
            arr("first only", a[..1].to_vec(), emit);
            arr("without first", a[1..].to_vec(), emit);
            arr("without last", a[..l - 1].to_vec(), emit);
            arr("last twice", [a.clone(), vec![a[l - 1].clone()]].concat(), emit);
            arr("twice", [a.clone(), a.clone()].concat(), emit);
            arr("reversed", a.iter().rev().cloned().collect(), emit);
            arr("first everywhere", vec![a[0].clone(); l], emit);
            arr("300 entries", a.iter().cycle().take(300).cloned().collect(), emit);
            if bytes {
                arr("zeros", vec![json!(0); l], emit);
                arr("ones", vec![json!(255); l], emit);
                arr("half", a[..l / 2].to_vec(), emit);
                arr("with a zero", [a.clone(), vec![json!(0)]].concat(), emit);
                if full {
                    for n in 0..l {
                        arr(&format!("cut to {n}"), a[..n].to_vec(), emit);
                    }
                }
                for (i, x) in a.iter().enumerate() {
                    if full || i == 0 || i == l - 1 || i == l / 2 {
                        for m in [1u64, 0x80, 0xff] {
                            let mut b = a.clone();
                            b[i] = json!(x.as_u64().unwrap() ^ m);
                            arr(&format!("[{i}]^{m}"), b, emit);
                        }
                    }
                }
            } else {
                for (i, x) in a.iter().enumerate() {
                    rec(x, &format!("{path}[{i}]"), points, full, &mut |p, y| {
                        let mut b = a.clone();
                        b[i] = y;
                        emit(p, Value::Array(b));
                    });
                }
            }
        }
        Value::Object(o) => {
            if o.contains_key("ge") {
                for (i, p) in points.iter().enumerate() {
                    emit(format!("{path} point {i}"), p.clone());
                }
                if !full {
                    return;
                }
            }
            for (k, x) in o {
                rec(x, &format!("{path}.{k}"), points, full, &mut |p, y| {
                    let mut b = o.clone();
                    b.insert(k.clone(), y);
                    emit(p, Value::Object(b));
                });
            }
        }
    }
}
/// the kind of place a fault is in: names without positions and values
fn place(name: &str) -> String {
    let mut out = String::new();
    for c in name.chars() {
        match c {
            ' ' | '=' | '+' | '^' => break,
            '-' if name.contains(".") && !out.is_empty() => break,
            '[' => out.push_str("[]"),
            '0'..='9' | ']' => {}
            c => out.push(c),
        }
    }
    out
}
/// all faults of a message that can be read back as such a message
fn faults_of<T: Serialize + DeserializeOwned>(m: &T, points: &[Value], full: bool) -> Vec<(String, T)> {
    let v = serde_json::to_value(m).expect("ser");
    let mut out: Vec<(String, T)> = vec![];
    for (n, x) in mutants(&v, points, full) {
        if let Ok(Ok(t)) = guard(|| serde_json::from_value::<T>(x)) {
            out.push((n, t));
        }
    }
    out
}
/// every fault of one byte of the encoded message, and every shortened encoding
fn byte_faults<T: Serialize + DeserializeOwned>(ctx: &Ctx, what: &str, m: &T, full: bool) -> Vec<(String, T)> {
    let b = bincode::serialize(m).expect("ser");
    let mut out = vec![];
    let mut try_ = |name: String, c: &[u8]| {
        ctx.eval();
        match guard(|| bincode::deserialize::<T>(c)) {
            Err(p) => ctx.fail(&format!("decode-panic-{what}"), format!("reading a damaged message panicked: {p}"), json!({"message": what, "fault": name, "bytes": hex::encode(c)})),
            Ok(Ok(t)) => out.push((format!("bytes {name}"), t)),
            Ok(Err(_)) => {}
        }
    };
    for i in 0..b.len() {
        for m in if full { (1..=255u8).collect::<Vec<_>>() } else { vec![0xff] } {
            let mut c = b.clone();
            c[i] ^= m;
            try_(format!("[{i}]^{m}"), &c);
        }
        try_(format!("cut to {i}"), &b[..i]);
    }
    try_("with a zero".into(), &[b.clone(), vec![0]].concat());
    out
}

// ------------------------------------------------------------------------------------------------
// the driver

pub type Step<N> = Arc<dyn Fn(&mut N) -> Result<String, String> + Send + Sync>;

pub struct Arena<N> {
    pub what: String,
    pub init: N,
    pub honest: Vec<(String, Step<N>)>,
    /// (name, kind of message, delivery)
    pub faults: Vec<(String, String, Step<N>)>,
    /// every question a user may ask, and the end of the run
    pub probe: Arc<dyn Fn(&mut N) -> String + Send + Sync>,
    pub mask: bool,
    /// also in the other order
    pub both_orders: bool,
    /// faults after accepted faults
    pub pairs: bool,
}
impl<N: Clone + Serialize + Send + Sync> Arena<N> {
    fn fp(&self, n: &N) -> u128 {
        if self.mask {
            crate::canon::canon_masked(n)
        } else {
            crate::canon::canon(n)
        }
    }
    fn finish(&self, n: &N, done: u32, rev: bool) -> Result<Vec<String>, String> {
        let mut n = n.clone();
        let mut out = vec![];
        let k = self.honest.len();
        for i in 0..k {
            let i = if rev { k - 1 - i } else { i };
            if done & (1 << i) == 0 {
                let r = guard(|| (self.honest[i].1)(&mut n)).map_err(|p| format!("genuine message {}: {p}", self.honest[i].0))?;
                out.push(format!("{:?}", r.is_ok()));
            }
        }
        out.push(guard(|| (self.probe)(&mut n)).map_err(|p| format!("asking for the results: {p}"))?);
        Ok(out)
    }
    pub fn run(&self, ctx: &Ctx) {
        let case = |hist: &[String], f: &str| json!({"run": self.what, "delivered before": hist, "message": f});
        // every state reached by a subset of the genuine messages
        let mut states: Vec<(u32, bool, N, Vec<String>)> = vec![];
        let mut seen = HashSet::new();
        let k = self.honest.len();
        for rev in if self.both_orders { vec![false, true] } else { vec![false] } {
            for m in 0..1u32 << k {
                let mut n = self.init.clone();
                let mut hist = vec![];
                let mut ok = true;
                for i in 0..k {
                    let i = if rev { k - 1 - i } else { i };
                    if m & (1 << i) != 0 {
                        hist.push(self.honest[i].0.clone());
                        match guard(|| (self.honest[i].1)(&mut n)) {
                            Err(p) => {
                                ctx.fail("panic-genuine", format!("a genuine message made the node panic: {p}"), case(&hist, &self.honest[i].0));
                                ok = false;
                                break;
                            }
                            Ok(_) => {}
                        }
                    }
                }
                if ok && seen.insert((self.fp(&n), m)) {
                    states.push((m, rev, n, hist));
                }
            }
        }
        ctx.st(states.len() as u64);
        let grown: Mutex<Vec<(N, Vec<String>)>> = Mutex::new(vec![]);
        let gseen: Mutex<HashSet<u128>> = Mutex::new(states.iter().map(|s| self.fp(&s.2)).collect());
        par_items(&states, |(m, rev, n, hist)| {
            let before = self.fp(n);
            let want = match self.finish(n, *m, *rev) {
                Ok(w) => w,
                Err(p) => {
                    ctx.fail("panic-genuine", format!("panic in an undisturbed run: {p}"), case(hist, ""));
                    return;
                }
            };
            for (name, kind, f) in &self.faults {
                ctx.eval();
                ctx.tr(1);
                let mut g = n.clone();
                match guard(|| f(&mut g)) {
                    Err(p) => ctx.fail(&format!("panic-{kind}-{}", place(name)), format!("{} panicked: {p}", self.what), case(hist, &format!("{kind}: {name}"))),
                    Ok(r) => {
                        let same = self.fp(&g) == before;
                        if r.is_err() {
                            ctx.nontriv();
                        }
                        ctx.outcome(match (r.is_err(), same) {
                            (true, true) => "refused, state as before",
                            (true, false) => "refused, state changed: the rest of the run compared",
                            (false, true) => "no effect",
                            (false, false) => "taken up",
                        });
                        if same {
                            continue;
                        }
                        match self.finish(&g, *m, *rev) {
                            Err(p) => ctx.fail(&format!("panic-later-{kind}-{}", place(name)), format!("{} panicked after a faulty message: {p}", self.what), case(hist, &format!("{kind}: {name}"))),
                            Ok(got) => {
                                if r.is_err() && got != want && kind != EVIDENCE {
                                    let key = if kind == FORGED { "forged-bad-justification-changes-state".to_string() } else { format!("affected-{kind}-{}", place(name)) };
                                    ctx.fail(&key, format!("a refused message changed the rest of the run: {got:?} instead of {want:?} (refused with {:?})", r.err()), case(hist, &format!("{kind}: {name}")));
                                }
                            }
                        }
                        if self.pairs && gseen.lock().unwrap().insert(self.fp(&g)) {
                            let mut h = hist.clone();
                            h.push(format!("{kind}: {name}"));
                            grown.lock().unwrap().push((g, h));
                        }
                    }
                }
            }
        });
        // a second fault after one that was taken up
        let grown = grown.into_inner().unwrap();
        ctx.st(grown.len() as u64);
        par_items(&grown, |(n, hist)| {
            let before = self.fp(n);
            for (name, kind, f) in &self.faults {
                ctx.eval();
                ctx.tr(1);
                let mut g = n.clone();
                match guard(|| f(&mut g)) {
                    Err(p) => ctx.fail(&format!("panic-second-{kind}-{}", place(name)), format!("{} panicked: {p}", self.what), case(hist, &format!("{kind}: {name}"))),
                    Ok(_) => {
                        if self.fp(&g) != before {
                            if let Err(p) = guard(|| (self.probe)(&mut g)) {
                                ctx.fail(&format!("panic-later-second-{kind}-{}", place(name)), format!("{} panicked after two faulty messages: {p}", self.what), case(hist, &format!("{kind}: {name}")));
                            }
                        }
                    }
                }
            }
        });
    }
}
pub fn step<N, M: Send + Sync + 'static, F: Fn(&mut N, &M) -> Result<String, String> + Send + Sync + 'static>(m: M, f: F) -> Step<N> {
    Arc::new(move |n| {
        seed_rng("step");
        f(n, &m)
    })
}
/// special points of the suite, in serialised form
fn points<X: Dk>() -> Vec<Value> {
    let mut v: Vec<Value> = [0i64, 1, -1, 5].iter().map(|k| json!(X::pt(&X::sc(*k)))).collect();
    if v[0].get("ge").is_some() {
        // the default (all zero) element, off-curve and degenerate coordinates
        let p = v[1].clone();
        let lim = |f: &dyn Fn(&mut serde_json::Map<String, Value>)| {
            let mut q = p.clone();
            if let Some(o) = q["ge"].as_object_mut() {
                f(o);
            }
            q
        };
        let zero = |o: &mut serde_json::Map<String, Value>, k: &str| {
            if let Some(x) = o.get_mut(k) {
                *x = zeroed(x);
            }
        };
        let keys: Vec<String> = p["ge"].as_object().unwrap().keys().cloned().collect();
        v.push(lim(&|o| keys.iter().for_each(|k| zero(o, k))));
        for k in &keys {
            v.push(lim(&|o| zero(o, k)));
            v.push(lim(&|o| {
                let x = o[k].clone();
                o.insert(k.clone(), bumped(&x, 1));
            }));
            v.push(lim(&|o| {
                let x = o[k].clone();
                o.insert(k.clone(), bumped(&x, i32::MAX as i64));
            }));
        }
    }
    v
}
fn zeroed(v: &Value) -> Value {
    match v {
        Value::Number(_) => json!(0),
        Value::Array(a) => Value::Array(a.iter().map(zeroed).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), zeroed(x))).collect()),
        x => x.clone(),
    }
}
fn bumped(v: &Value, by: i64) -> Value {
    match v {
        Value::Number(n) if by == 1 => json!(n.as_i64().unwrap_or(0) + 1),
        Value::Number(_) => json!(by),
        Value::Array(a) if by == 1 => Value::Array(a.iter().enumerate().map(|(i, x)| if i == 0 { bumped(x, by) } else { x.clone() }).collect()),
        Value::Array(a) => Value::Array(a.iter().map(|x| bumped(x, by)).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), bumped(x, by))).collect()),
        x => x.clone(),
    }
}

/// encrypted deals for recipient i: faults of the plaintext (structure and bytes) and of the envelope
fn deal_faults<Y: Sch>(ctx: &Ctx, long: &Y::S, pubs: &[Y::P], i: usize, good: &MDeal<Y::S, Y::P>, points: &[Value], full: bool) -> Vec<(String, Y::ED)> {
    let mut out: Vec<(String, Y::ED)> = vec![];
    let mut add = |n: String, r: Result<Y::ED, String>| {
        if let Ok(e) = r {
            out.push((n, e))
        }
    };
    let env = |b: &[u8]| {
        seed_rng("env");
        guard(|| Y::raw(long, pubs, i, b))
    };
    for (n, m) in faults_of(good, points, full) {
        if let Ok(b) = guard(|| Y::plain_bytes(&m)) {
            add(format!("plain{n}"), env(&b));
        }
    }
    let b = Y::plain_bytes(good);
    for k in 0..b.len() {
        for x in if full { vec![1u8, 2, 4, 8, 16, 32, 64, 0x80, 0x7f, 0xff] } else { vec![1u8, 0xff] } {
            let mut c = b.clone();
            c[k] ^= x;
            add(format!("plain-bytes [{k}]^{x}"), env(&c));
        }
        add(format!("plain-bytes cut to {k}"), env(&b[..k]));
    }
    for x in [vec![0u8; 1], vec![0xff; 64], vec![0; 5000]] {
        add("plain-bytes longer".into(), env(&[b.clone(), x].concat()));
    }
    let e = env(&b).expect("envelope");
    for (n, m) in faults_of(&e, points, full) {
        add(format!("envelope{n}"), Ok(m));
    }
    // another ephemeral key, signed
    let v = serde_json::to_value(&e).unwrap();
    for (k, p) in points.iter().enumerate() {
        let mut w = v.clone();
        w["dhkey"] = p.clone();
        if let Ok(q) = serde_json::from_value::<Y::P>(p.clone()) {
            seed_rng("dhsig");
            if let Ok(Ok(qb)) = guard(|| kyber_rs::encoding::BinaryMarshaler::marshal_binary(&q)) {
                w["signature"] = json!(Y::sign(long, &qb));
                if let Ok(m) = serde_json::from_value(w) {
                    add(format!("envelope.dhkey signed point {k}"), Ok(m));
                }
            }
        }
    }
    for (n, m) in byte_faults(ctx, "encrypted deal", &e, full) {
        add(format!("envelope-{n}"), Ok(m));
    }
    out
}
/// faults of a signed message: as they are, and signed again by every key the senders hold
fn signed_faults<T: Serialize + DeserializeOwned + Clone>(ctx: &Ctx, what: &str, m: &T, points: &[Value], full: bool, sign: &dyn Fn(&T) -> Option<T>) -> Vec<(String, T)> {
    let mut out = vec![];
    for (n, x) in faults_of(m, points, full) {
        seed_rng("sf");
        match guard(|| sign(&x)) {
            // not a message of the real type (only of its mirror)
            Err(p) if p.contains("mirror structure") => continue,
            Ok(Some(s)) => out.push((format!("{n}, signed"), s)),
            _ => {}
        }
        out.push((n, x));
    }
    out.extend(byte_faults(ctx, what, m, full));
    out
}
/// what refusing a faulty justification may mean. A bad one signed by the dealer is evidence against the
/// dealer; everything else must leave the run as it was.
fn just_kind(orig: &Value, v: &Value, name: &str) -> &'static str {
    let (o, j) = (orig.get("justification").unwrap_or(orig), v.get("justification").unwrap_or(v));
    if o["session_id"] != j["session_id"] {
        return "justification";
    }
    let bad = o["deal"] != j["deal"] || o["index"] != j["index"];
    match (bad, name.ends_with(", signed")) {
        (true, true) => EVIDENCE,
        (true, false) => FORGED,
        _ => "justification",
    }
}
const EVIDENCE: &str = "signed-bad-justification";
const FORGED: &str = "forged-bad-justification";
fn resp_sign<Y: Sch>(r: &Y::R, key: &Y::S) -> Option<Y::R> {
    let (sid, ix, ok, _) = Y::rparts(r);
    Some(Y::resp_signed(&sid, ix, ok, key))
}

// ------------------------------------------------------------------------------------------------
// verifiable secret sharing

fn vss<Y: Sch, K: Dk<S = Y::S, P = Y::P>>(ctx: &Ctx, n: usize, t: usize, me: usize, full: bool, pairs: bool) {
    let w = World::<Y>::new(n, t);
    let pts = points::<K>();
    let mask = Y::NAME.contains("ed25519");
    let good = Y::plain(&mut w.dealer.clone(), me).expect("plain");
    let mut bad = good.clone();
    bad.sec_share.v = bad.sec_share.v + Y::sc(1);
    let others: Vec<usize> = (0..n).filter(|i| *i != me).collect();
    seed_rng("r");
    let resps: Vec<Y::R> = others.iter().map(|i| Y::resp_signed(&w.sid, *i as u32, true, &w.longs[*i])).collect();
    let comps: Vec<Y::R> = others.iter().map(|i| Y::resp_signed(&w.sid, *i as u32, false, &w.longs[*i])).collect();
    let mine = Y::resp_signed(&w.sid, me as u32, true, &w.longs[me]);
    let just: Vec<Y::J> = others.iter().map(|i| w.just_as(*i, None, false)).collect();
    let myjust = w.just_as(me, None, false);
    let deal = |e: Y::ED| step(e, |v: &mut Y::V, e| Y::v_deal(v, e).map(|r| format!("{:?}", Y::rparts(&r).2)));
    let resp = |r: Y::R| step(r, |v: &mut Y::V, r| Y::v_resp(v, r).map(|_| String::new()));
    let jus = |j: Y::J| step(j, |v: &mut Y::V, j| Y::v_just(v, j).map(|_| String::new()));
    // faults
    let mut faults: Vec<(String, String, Step<Y::V>)> = vec![];
    for (nm, e) in deal_faults::<Y>(ctx, &w.dlong, &w.pubs, me, &good, &pts, full) {
        faults.push((nm, "deal".into(), deal(e)));
    }
    for (o, list) in [(0usize, &resps), (0, &comps)] {
        for (nm, r) in signed_faults(ctx, "response", &list[o], &pts, full, &|r| resp_sign::<Y>(r, &w.longs[others[o]])) {
            faults.push((nm, "response".into(), resp(r)));
        }
    }
    for (nm, r) in signed_faults(ctx, "response", &mine, &pts, full, &|_| None) {
        faults.push((format!("own {nm}"), "response".into(), resp(r)));
    }
    for j in [&just[0], &myjust] {
        for (nm, x) in signed_faults(ctx, "justification", j, &pts, full, &|x| Y::sign_just(&serde_json::to_value(x).ok()?, &w.dlong)) {
            let k = just_kind(&json!(j), &json!(x), &nm);
            faults.push((nm, k.into(), jus(x)));
        }
    }
    let probe = Arc::new(|v: &mut Y::V| {
        let a = (Y::v_certified(v), format!("{:?}", Y::v_deal_out(v)), Y::v_missing(v));
        let has = !serde_json::to_value(&*v).unwrap()["aggregator"].is_null();
        if has {
            Y::v_timeout(v);
        }
        let b = (Y::v_certified(v), format!("{:?}", Y::v_deal_out(v)), Y::v_missing(v));
        format!("{a:?} {b:?}")
    });
    for (label, hon) in [
        ("all approve", vec![("deal".to_string(), deal(w.enc_as(me, &good))), ("approval 0".into(), resp(resps[0].clone())), ("approval 1".into(), resp(resps[1].clone()))]),
        ("complaint of another", vec![("deal".into(), deal(w.enc_as(me, &good))), ("complaint 0".into(), resp(comps[0].clone())), ("justification".into(), jus(just[0].clone())), ("approval 1".into(), resp(resps[1].clone()))]),
        ("own complaint", vec![("bad deal".into(), deal(w.enc_as(me, &bad))), ("justification".into(), jus(myjust.clone())), ("approval 0".into(), resp(resps[0].clone())), ("complaint 1".into(), resp(comps[1].clone()))]),
    ] {
        Arena { what: format!("verifier {me} of {} n={n} t={t}, {label}", Y::NAME), init: w.verifier(me), honest: hon, faults: faults.clone(), probe: probe.clone(), mask, both_orders: true, pairs }.run(ctx);
    }
    // the dealer
    let dresp = |r: Y::R| step(r, |d: &mut Y::D, r| Y::d_resp(d, r).map(|j| format!("{}", j.is_some())));
    let mut faults: Vec<(String, String, Step<Y::D>)> = vec![];
    for r in [&resps[0], &comps[0]] {
        for (nm, x) in signed_faults(ctx, "response", r, &pts, full, &|r| resp_sign::<Y>(r, &w.longs[others[0]])) {
            faults.push((nm, "response".into(), dresp(x)));
        }
    }
    let probe = Arc::new(|d: &mut Y::D| {
        let a = (Y::d_certified(d), format!("{:?}", Y::d_secret_commit(d)));
        Y::d_timeout(d);
        format!("{a:?} {:?}", (Y::d_certified(d), format!("{:?}", Y::d_secret_commit(d))))
    });
    let hon = vec![("approval".to_string(), dresp(mine.clone())), ("complaint 0".into(), dresp(comps[0].clone())), ("approval 1".into(), dresp(resps[1].clone()))];
    Arena { what: format!("dealer of {} n={n} t={t}", Y::NAME), init: w.dealer.clone(), honest: hon, faults, probe, mask, both_orders: true, pairs }.run(ctx);
}

// ------------------------------------------------------------------------------------------------
// key generation and resharing

fn dkg_probe<X: Dk>() -> Arc<dyn Fn(&mut X::G) -> String + Send + Sync> {
    Arc::new(|g: &mut X::G| {
        let ask = |g: &X::G| {
            let mut q = X::qual(g);
            q.sort();
            let mut s = X::qshares(g);
            s.sort();
            let key = X::key(g).map(|k| (crate::canon::canon(&k.share), k.commits.iter().map(|c| format!("{c}")).collect::<Vec<_>>()));
            format!("{:?}", (X::certified(g), X::thr_certified(g), q, s, X::is_in_qual(g, 0), X::is_in_qual(g, u32::MAX), X::expected(g), key.map_err(|_| "no key")))
        };
        let a = ask(g);
        X::timeout(g);
        format!("{a} {}", ask(g))
    })
}
/// `dealers`/`holders` as in DWorld; `p` the faulty peer, `me` the observed node (keys)
fn dkg<X: Dk, Y: Sch<S = X::S, P = X::P>>(ctx: &Ctx, w: &DWorld<X>, me: usize, p: usize, full: bool, pairs: bool) {
    let pts = points::<X>();
    let mask = X::NAME.contains("ed25519");
    let (pd, mh, ph) = (w.dealers.iter().position(|k| *k == p), w.holders.iter().position(|k| *k == me), w.holders.iter().position(|k| *k == p));
    let hp: Vec<X::P> = w.holders.iter().map(|k| w.pubs[*k].clone()).collect();
    let on_deal = |d: X::Deal| step(d, |g: &mut X::G, d| X::on_deal(g, d).map(|r| format!("{}", r.response.status)));
    let on_resp = |r: ps::Response| step(r, |g: &mut X::G, r| X::on_resp(g, r).map(|j| format!("{}", j.is_some())));
    let on_just = |j: X::J| step(j, |g: &mut X::G, j| X::on_just(g, j).map(|_| String::new()));
    // the genuine run: one complaint by the faulty peer's side about another dealer, answered
    let cd = w.dealers.iter().position(|k| *k != p && *k != me);
    let cv = (0..w.nh()).find(|h| w.holders[*h] != me && cd.map_or(false, |d| w.dealers[d] != w.holders[*h]));
    let mut honest: Vec<(String, Step<X::G>)> = vec![];
    let mut just0: Option<X::J> = None;
    for d in 0..w.nd() {
        if let (Some(h), true) = (mh, w.dealers[d] != me) {
            honest.push((format!("deal of {d}"), on_deal(w.deals[d][&h].clone())));
        }
    }
    for d in 0..w.nd() {
        for h in 0..w.nh() {
            if w.holders[h] == me || (w.fresh && w.dealers[d] == w.holders[h]) {
                continue;
            }
            seed_rng("hr");
            let ok = !(Some(d) == cd && Some(h) == cv);
            let r = X::resp(d as u32, &w.sids[d], h as u32, ok, &w.keys[w.holders[h]]);
            honest.push((format!("{} of {h} about {d}", if ok { "approval" } else { "complaint" }), on_resp(r.clone())));
            if !ok {
                if let Some(j) = X::craft_just(w.dealer_node(d), d as u32, &r, None) {
                    just0 = Some(j.clone());
                    honest.push((format!("justification of {d}"), on_just(j)));
                }
            }
        }
    }
    // what the faulty peer can send
    let mut faults: Vec<(String, String, Step<X::G>)> = vec![];
    if let (Some(d), Some(h)) = (pd, mh) {
        let good = w.good(d, h);
        let base = &w.deals[d][&h];
        let bv = serde_json::to_value(base).unwrap();
        let key = &w.keys[p];
        for (nm, e) in deal_faults::<Y>(ctx, key, &hp, h, &good, &pts, full) {
            let mut v = bv.clone();
            v["deal"] = serde_json::to_value(&e).unwrap();
            if let Ok(m) = serde_json::from_value::<X::Deal>(v) {
                seed_rng("rs");
                if let Ok(m) = guard(|| X::resign_deal(&m, key)) {
                    faults.push((nm, "deal".into(), on_deal(m)));
                }
            }
        }
        for (nm, m) in signed_faults(ctx, "dealt deal", base, &pts, full, &|m| Some(X::resign_deal(m, key))) {
            faults.push((format!("outer{nm}"), "deal".into(), on_deal(m)));
        }
    }
    if let Some(h) = ph {
        for d in 0..w.nd() {
            for ok in [true, false] {
                seed_rng("fr");
                let r = X::resp(d as u32, &w.sids[d], h as u32, ok, &w.keys[p]);
                for (nm, m) in signed_faults(ctx, "response", &r, &pts, full && d == 0, &|m| {
                    let q = X::resp(m.index, &m.response.session_id, m.response.index, m.response.status, &w.keys[p]);
                    Some(q)
                }) {
                    faults.push((nm, "response".into(), on_resp(m)));
                }
            }
        }
    }
    if let Some(d) = pd {
        // justifications of the faulty dealer for every holder, and damaged ones of another dealer
        for v in 0..w.nh() {
            seed_rng("fj");
            let r = X::resp(d as u32, &w.sids[d], v as u32, false, &w.keys[w.holders[v]]);
            if let Some(j) = X::craft_just(w.dealer_node(d), d as u32, &r, None) {
                for (nm, m) in signed_faults(ctx, "justification", &j, &pts, full && v == 0, &|m| {
                    let mut v = serde_json::to_value(m).ok()?;
                    let s = Y::sign_just(&v["justification"], &w.keys[p])?;
                    v["justification"] = serde_json::to_value(s).ok()?;
                    serde_json::from_value(v).ok()
                }) {
                    let k = just_kind(&json!(j), &json!(m), &nm);
                    faults.push((nm, k.into(), on_just(m)));
                }
            }
        }
    }
    if let Some(j) = just0 {
        for (nm, m) in signed_faults(ctx, "justification", &j, &pts, false, &|_| None) {
            let k = just_kind(&json!(j), &json!(m), &nm);
            faults.push((format!("damaged{nm}"), k.into(), on_just(m)));
        }
    }
    let kind = if w.fresh { "key generation".to_string() } else { format!("resharing {:?} -> {:?}", w.dealers, w.holders) };
    Arena { what: format!("{kind} ({}), node {me}, faulty peer {p}", X::NAME), init: w.nodes[&me].clone(), honest, faults, probe: dkg_probe::<X>(), mask, both_orders: full, pairs }.run(ctx);
}

// ------------------------------------------------------------------------------------------------
// the second key generation

fn rab_probe<X: Rb>() -> Arc<dyn Fn(&mut X::G) -> String + Send + Sync> {
    Arc::new(|g: &mut X::G| {
        let ask = |g: &X::G| {
            let mut q = X::qual(g);
            q.sort();
            let key = X::key(g).map(|k| (crate::canon::canon(&k.share), k.commits.iter().map(|c| format!("{c}")).collect::<Vec<_>>()));
            format!("{:?}", (X::certified(g), q, X::is_in_qual(g, 0), X::is_in_qual(g, u32::MAX), X::finished(g), key.map_err(|_| "no key")))
        };
        let a = ask(g);
        let sc = X::secret_commits(g).map(|m| m.commitments.iter().map(|c| format!("{c}")).collect::<Vec<_>>()).map_err(|_| "no");
        let b = ask(g);
        X::timeout(g);
        let sc2 = X::secret_commits(g).is_ok();
        format!("{a} {sc:?} {b} {sc2} {}", ask(g))
    })
}
fn rabin1<X: Rb, Y: Sch<S = <X::K as Dk>::S, P = <X::K as Dk>::P>>(ctx: &Ctx, n: usize, t: usize, full: bool, pairs: bool) {
    let (me, p) = (0usize, 1usize);
    let w = RWorld::<X>::build(n, t, 1);
    let pts = points::<X::K>();
    let mask = X::NAME.contains("ed25519");
    let on_deal = |d: X::Deal| step(d, |g: &mut X::G, d| X::on_deal(g, d).map(|r| format!("{}", r.response.approved)));
    let on_resp = |r: rb::Response| step(r, |g: &mut X::G, r| X::on_resp(g, r).map(|j| format!("{}", j.is_some())));
    let on_just = |j: X::J| step(j, |g: &mut X::G, j| X::on_just(g, j).map(|_| String::new()));
    let (cd, cv) = (2usize, 1usize);
    let mut honest: Vec<(String, Step<X::G>)> = vec![];
    for d in 0..n {
        if d != me {
            honest.push((format!("deal of {d}"), on_deal(w.deals[d][&me].clone())));
        }
    }
    for d in 0..n {
        for v in 0..n {
            if v == me || v == d {
                continue;
            }
            seed_rng("rr");
            let ok = !(d == cd && v == cv);
            let r = X::resp(d as u32, &w.sids[d], v as u32, ok, &w.keys[v]);
            honest.push((format!("{} of {v} about {d}", if ok { "approval" } else { "complaint" }), on_resp(r.clone())));
            if !ok {
                if let Some(j) = X::craft_just(&w.nodes[d], &r, None) {
                    honest.push((format!("justification of {d}"), on_just(j)));
                }
            }
        }
    }
    let mut faults: Vec<(String, String, Step<X::G>)> = vec![];
    let key = &w.keys[p];
    let bv = serde_json::to_value(&w.deals[p][&me]).unwrap();
    for (nm, e) in deal_faults::<Y>(ctx, key, &w.pubs, me, &w.good(p, me), &pts, full) {
        let mut v = bv.clone();
        v["deal"] = serde_json::to_value(&e).unwrap();
        if let Ok(m) = serde_json::from_value::<X::Deal>(v) {
            faults.push((nm, "deal".into(), on_deal(m)));
        }
    }
    for (nm, m) in signed_faults(ctx, "dealt deal", &w.deals[p][&me], &pts, full, &|_| None) {
        faults.push((format!("outer{nm}"), "deal".into(), on_deal(m)));
    }
    for d in 0..n {
        for ok in [true, false] {
            seed_rng("fr");
            let r = X::resp(d as u32, &w.sids[d], p as u32, ok, key);
            for (nm, m) in signed_faults(ctx, "response", &r, &pts, full && d == 0, &|m| Some(X::resp(m.index, &m.response.session_id, m.response.index, m.response.approved, key))) {
                faults.push((nm, "response".into(), on_resp(m)));
            }
        }
    }
    for v in 0..n {
        if v == p {
            continue;
        }
        seed_rng("fj");
        let r = X::resp(p as u32, &w.sids[p], v as u32, false, &w.keys[v]);
        if let Some(j) = X::craft_just(&w.nodes[p], &r, None) {
            for (nm, m) in signed_faults(ctx, "justification", &j, &pts, full && v == 0, &|m| {
                let mut v = serde_json::to_value(m).ok()?;
                let s = Y::sign_just(&v["justification"], key)?;
                v["justification"] = serde_json::to_value(s).ok()?;
                serde_json::from_value(v).ok()
            }) {
                let k = just_kind(&json!(j), &json!(m), &nm);
                faults.push((nm, k.into(), on_just(m)));
            }
        }
    }
    faults.extend(phase2_faults::<X>(ctx, &w, me, p, &pts, full));
    Arena { what: format!("rabin key generation ({}), phase 1, node {me}, faulty peer {p}", X::NAME), init: w.nodes[me].clone(), honest, faults, probe: rab_probe::<X>(), mask, both_orders: full, pairs }.run(ctx);
}
/// messages of the second phase by the faulty peer p
fn phase2_faults<X: Rb>(ctx: &Ctx, w: &RWorld<X>, _me: usize, p: usize, pts: &[Value], full: bool) -> Vec<(String, String, Step<X::G>)> {
    let mut faults: Vec<(String, String, Step<X::G>)> = vec![];
    let key = &w.keys[p];
    if let Some(m) = false_sc::<X>(w, p, "true") {
        for (nm, x) in signed_faults(ctx, "secret commits", &m, pts, full, &|x| Some(X::sign_sc(x, key))) {
            faults.push((nm, "secret-commits".into(), step(x, |g: &mut X::G, m| X::on_sc(g, m).map(|r| format!("{}", r.is_some())))));
        }
    }
    for d in 0..w.n {
        let m = crate::p_rab::MCc { index: p as u32, dealer_index: d as u32, deal: w.good(d, p), signature: vec![] };
        seed_rng("cc");
        let m = X::sign_cc(&m, key);
        faults.push((format!("about {d}"), "complaint-commits".into(), step(m.clone(), |g: &mut X::G, m| X::on_cc(g, m).map(|_| String::new()))));
        for (nm, x) in signed_faults(ctx, "complaint commits", &m, pts, full && d == 2, &|x| Some(X::sign_cc(x, key))) {
            faults.push((nm, "complaint-commits".into(), step(x, |g: &mut X::G, m| X::on_cc(g, m).map(|_| String::new()))));
        }
        let m = crate::p_rab::MRc { session_id: w.sids[d].clone(), index: p as u32, dealer_index: d as u32, share: w.good(d, p).sec_share, signature: vec![] };
        seed_rng("rc");
        let m = X::sign_rc(&m, key);
        faults.push((format!("about {d}"), "reconstruct-commits".into(), step(m.clone(), |g: &mut X::G, m| X::on_rc(g, m).map(|_| String::new()))));
        for (nm, x) in signed_faults(ctx, "reconstruct commits", &m, pts, full && d == 2, &|x| Some(X::sign_rc(x, key))) {
            faults.push((nm, "reconstruct-commits".into(), step(x, |g: &mut X::G, m| X::on_rc(g, m).map(|_| String::new()))));
        }
    }
    faults
}
fn rabin2<X: Rb>(ctx: &Ctx, n: usize, t: usize, full: bool, pairs: bool) {
    let (me, p, f) = (0usize, 1usize, 2usize);
    let (w, w2) = (RWorld::<X>::build(n, t, 1), RWorld::<X>::build(n, t, 2));
    let pts = points::<X::K>();
    let mask = X::NAME.contains("ed25519");
    let nodes: Vec<X::G> = match after_phase1(&w, &w2, &P1::default(), false) {
        Ok(v) => v.into_iter().map(|x| x.unwrap()).collect(),
        Err(e) => {
            ctx.fail("panic-genuine", e, json!({"run": "rabin phase 1"}));
            return;
        }
    };
    let on_sc = |m: crate::p_rab::Sc<X>| step(m, |g: &mut X::G, m| X::on_sc(g, m).map(|r| format!("{}", r.is_some())));
    let on_cc = |m: crate::p_rab::Cc<X>| step(m, |g: &mut X::G, m| X::on_cc(g, m).map(|_| String::new()));
    let on_rc = |m: crate::p_rab::Rc<X>| step(m, |g: &mut X::G, m| X::on_rc(g, m).map(|_| String::new()));
    let publish: Step<X::G> = Arc::new(|g: &mut X::G| {
        seed_rng("publish");
        X::secret_commits(g).map(|_| String::new())
    });
    let mut faults = phase2_faults::<X>(ctx, &w, me, p, &pts, full);
    // the other faulty dealer's lies are material too
    for k in ["constant+1", "last+1", "zero", "blinded", "another's", "empty", "short", "long-true", "long-fits-all"] {
        for d in [p, f] {
            if let Some(m) = false_sc::<X>(&w, d, k) {
                faults.push((format!("{k} of {d}"), "secret-commits".into(), on_sc(m)));
            }
        }
    }
    for kind in ["true", "constant+1", "last+1"] {
        let mut honest: Vec<(String, Step<X::G>)> = vec![("own commitments published".into(), publish.clone())];
        honest.push((format!("commitments of {p}"), on_sc(false_sc::<X>(&w, p, "true").unwrap())));
        let m = false_sc::<X>(&w, f, kind).unwrap();
        honest.push((format!("commitments of {f} ({kind})"), on_sc(m.clone())));
        if kind != "true" {
            // the complaints of the others and the shares they reveal, by the real code
            for v in 0..n {
                if v == f || v == me {
                    continue;
                }
                let mut g = nodes[v].clone();
                seed_rng("c");
                if let Ok(Ok(Some(cc))) = guard(|| X::on_sc(&mut g, &m)) {
                    honest.push((format!("complaint of {v}"), on_cc(cc.clone())));
                    seed_rng("rc");
                    if let Ok(Ok(rc)) = guard(|| X::on_cc(&mut g, &cc)) {
                        honest.push((format!("share revealed by {v}"), on_rc(rc)));
                    }
                }
            }
        }
        Arena { what: format!("rabin key generation ({}), phase 2, node {me}, faulty peer {p}, commitments of {f}: {kind}", X::NAME), init: nodes[me].clone(), honest, faults: faults.clone(), probe: rab_probe::<X>(), mask, both_orders: true, pairs }.run(ctx);
    }
}

// ------------------------------------------------------------------------------------------------
// threshold signing

fn signing<X: Ds>(ctx: &Ctx, n: usize, t: usize, full: bool) {
    let w = SWorld::<X>::new(n, t, t, 1);
    let msg = b"message";
    let mask = X::NAME.contains("ed25519");
    let parts: Vec<_> = (0..n)
        .map(|i| {
            seed_rng(&format!("p{i}"));
            X::partial(&mut w.signer(i, msg, t).expect("signer")).expect("partial")
        })
        .collect();
    let pts = points::<X::K>();
    let on = |m: crate::p_dss::MPart<crate::p_dss::SS<X>>| step(m, |g: &mut X::G, m| X::process(g, m).map(|_| String::new()));
    let own: Step<X::G> = Arc::new(|g: &mut X::G| {
        seed_rng("own");
        X::partial(g).map(|_| String::new())
    });
    let mut honest: Vec<(String, Step<X::G>)> = vec![("own".into(), own)];
    for i in 1..n {
        honest.push((format!("partial of {i}"), on(parts[i].clone())));
    }
    let mut faults = vec![];
    for i in [1usize, 2] {
        for (nm, m) in signed_faults(ctx, "partial", &parts[i], &pts, full, &|m| Some(X::sign(m, &w.keys[i]))) {
            faults.push((nm, "partial".to_string(), on(m)));
        }
    }
    let probe = Arc::new(|g: &mut X::G| format!("{:?} {:?}", X::enough(g), X::signature(g).map(hex::encode).map_err(|_| "no")));
    Arena { what: format!("signing ({}) n={n} t={t}", X::NAME), init: w.signer(0, msg, t).expect("signer"), honest, faults, probe, mask, both_orders: true, pairs: true }.run(ctx);
}

pub fn c27(ctx: &Ctx) -> i32 {
    let full = ctx.thorough();
    let mut jobs: Vec<Box<dyn Fn() + Send + Sync>> = vec![];
    jobs.push(Box::new(move || {
        vss::<PedToy, DkToy>(ctx, 3, 2, 1, full, true);
        vss::<RabToy, DkToy>(ctx, 3, 2, 1, full, true);
        vss::<PedEd, DkEd>(ctx, 3, 2, 1, false, false);
        vss::<RabEd, DkEd>(ctx, 3, 2, 1, false, false);
        if full {
            vss::<PedToy, DkToy>(ctx, 5, 3, 0, false, true);
            vss::<RabToy, DkToy>(ctx, 5, 3, 0, false, true);
        }
    }));
    for j in &jobs {
        j();
    }
    fn reshare<X: Dk, Y: Sch<S = X::S, P = X::P>>(ctx: &Ctx, full: bool, pairs: bool, who: &[(usize, usize)]) {
        let w = DWorld::<X>::build(&[0, 1, 2], &[1, 2, 3], 2, 2, false, &[], 7, &[]);
        for (me, p) in who {
            dkg::<X, Y>(ctx, &w, *me, *p, full, pairs);
        }
    }
    let w = DWorld::<DkToy>::build(&[0, 1, 2], &[0, 1, 2], 2, 0, true, &[], 3, &[]);
    dkg::<DkToy, PedToy>(ctx, &w, 0, 1, full, full);
    reshare::<DkToy, PedToy>(ctx, full, full, &[(1, 2), (3, 1), (0, 1), (1, 3)]);
    rabin1::<RbToy, RabToy>(ctx, 3, 2, full, false);
    rabin2::<RbToy>(ctx, 3, 2, full, true);
    signing::<DsToyP>(ctx, 3, 2, full);
    signing::<DsToyR>(ctx, 3, 2, full);
    signing::<DsEdP>(ctx, 3, 2, false);
    if full {
        let w = DWorld::<DkEd>::build(&[0, 1, 2], &[0, 1, 2], 2, 0, true, &[], 3, &[]);
        dkg::<DkEd, PedEd>(ctx, &w, 0, 1, false, false);
        reshare::<DkEd, PedEd>(ctx, false, false, &[(1, 2), (3, 1), (0, 1)]);
        rabin1::<RbEd, RabEd>(ctx, 3, 2, false, false);
        rabin2::<RbEd>(ctx, 3, 2, false, false);
    }
    ctx.bound("every state reached by any subset of the genuine messages of a run (given order, and reversed where stated) x every message differing from a genuine one in one field, signed again by its sender where possible, and every damaged byte or cut of its encoding; then the rest of the run and every query");
    0
}
