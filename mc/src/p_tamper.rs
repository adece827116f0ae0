//! Messages altered in transit (C14, C16, C18, C19, C20): one complete run with a complaint, its justification and,
//! for the two-phase generation, a reconstruction. Before and after every genuine delivery, every single-place
//! alteration of that message (every field, every element and byte position, and every field taken from another
//! genuine message of the same or of another run) is delivered instead: it must be refused and change nothing.
use crate::engine::*;
use crate::p_dkg::{DWorld, Dk};
use crate::p_rab::{false_sc, sc, Cc, RWorld, Rb, Rc, Sc};
use crate::p_vss::{canon, conv, Sch, World};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeSet;

fn bytes(v: &Value) -> Option<Vec<u8>> {
    let a = v.as_array()?;
    if a.len() < 4 {
        return None;
    }
    a.iter().map(|x| x.as_u64().and_then(|x| u8::try_from(x).ok())).collect()
}

fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    if !at.is_empty() {
        out.push(at.clone());
    }
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                if k == "var_time" {
                    continue; // how a point computes, not which point it is
                }
                at.push(k.clone());
                paths(x, at, out);
                at.pop();
            }
        }
        Value::Array(a) if bytes(v).is_none() => {
            for (k, x) in a.iter().enumerate() {
                at.push(k.to_string());
                paths(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}

fn ptr(p: &[String]) -> String {
    p.iter().map(|s| format!("/{s}")).collect()
}

/// every alteration of one place of m
fn altered<T: Serialize + DeserializeOwned>(m: &T, pool: &[Value]) -> Vec<(String, T)> {
    let v = serde_json::to_value(m).expect("ser");
    let mut ps = vec![];
    paths(&v, &mut vec![], &mut ps);
    let mut cand: Vec<(String, Value)> = vec![];
    for p in &ps {
        let q = ptr(p);
        let x = v.pointer(&q).unwrap().clone();
        let mut put = |w: String, y: Value| {
            let mut z = v.clone();
            *z.pointer_mut(&q).unwrap() = y;
            cand.push((format!("{q} {w}"), z));
        };
        match &x {
            Value::Bool(b) => put("flipped".into(), json!(!b)),
            Value::Number(k) => {
                if let Some(k) = k.as_u64() {
                    put("+1".into(), json!(k.wrapping_add(1)));
                    put("-1".into(), json!(k.wrapping_sub(1)));
                    put("+256".into(), json!(k.wrapping_add(256)));
                    put("+65536".into(), json!(k.wrapping_add(65536)));
                    put("+2^32".into(), json!(k.wrapping_add(1 << 32)));
                    put("zero".into(), json!(0));
                } else if let Some(k) = k.as_i64() {
                    put("+1".into(), json!(k + 1));
                }
            }
            Value::Array(a) => {
                if let Some(b) = bytes(&x) {
                    for i in places(b.len()) {
                        for bit in [1u8, 0x80] {
                            let mut y = b.clone();
                            y[i] ^= bit;
                            put(format!("byte {i} bit {bit:#x}"), json!(y));
                        }
                    }
                }
                if !a.is_empty() {
                    put("last dropped".into(), json!(a[..a.len() - 1]));
                    put("first dropped".into(), json!(a[1..]));
                    let mut y = a.clone();
                    y.push(a[a.len() - 1].clone());
                    put("last repeated".into(), json!(y));
                    let mut y = a.clone();
                    y.push(json!(0));
                    put("zero appended".into(), json!(y));
                    let mut y = a.clone();
                    y.reverse();
                    put("reversed".into(), json!(y));
                    put("emptied".into(), json!([]));
                }
            }
            _ => {}
        }
        let mut seen = BTreeSet::new();
        for (k, o) in pool.iter().enumerate() {
            if let Some(y) = o.pointer(&q) {
                // (two signatures of the same content are both genuine)
                let mut z = v.clone();
                *z.pointer_mut(&q).unwrap() = y.clone();
                let mut o = o.clone();
                o.as_object_mut().map(|m| m.remove("marker"));
                if *y != x && z != o && seen.insert(y.to_string()) {
                    put(format!("of another message ({k})"), y.clone());
                }
            }
        }
    }
    let mut seen = BTreeSet::new();
    seen.insert(v.to_string());
    let genuine: BTreeSet<String> = pool.iter().map(|x| x.to_string()).collect();
    cand.into_iter()
        .filter_map(|(w, z)| {
            let t: T = guard(|| serde_json::from_value(z).ok()).ok()??;
            let back = serde_json::to_value(&t).ok()?.to_string();
            (!genuine.contains(&back) && seen.insert(back)).then_some((w, t))
        })
        .collect()
}

struct At<'a> {
    ctx: &'a Ctx,
    run: String,
    what: &'static str,
    from: usize,
    to: usize,
}

impl At<'_> {
    /// delivers every alteration of m to a copy of g. `strict`: m itself would still be accepted, so every alteration must
    /// be refused with an error; otherwise it must at least have no effect. `still`: the state must not change.
    fn attack<G: Clone + Serialize + Sync, T: Serialize + DeserializeOwned + Sync>(&self, g: &G, m: &T, pool: &[Value], strict: bool, still: bool, f: &(dyn Fn(&mut G, &T) -> Result<bool, String> + Sync)) {
        let before = canon(g);
        for (w, x) in altered(m, pool) {
            let case = || json!({"run": self.run, "message": self.what, "from": self.from, "to": self.to, "alteration": w, "delivery": if strict { "instead of the genuine message" } else { "after the genuine message" }});
            self.ctx.eval();
            self.ctx.tr(1);
            let mut h = g.clone();
            seed_rng("tamper");
            match guard(|| f(&mut h, &x)) {
                Err(p) => self.ctx.fail("altered-message-panic", p, case()),
                Ok(Ok(out)) => {
                    if strict || out {
                        self.ctx.fail(&format!("altered-{}-accepted", self.what), "a message altered in transit is accepted", case());
                    }
                }
                Ok(Err(_)) => self.ctx.nontriv(),
            }
            if still {
                self.ctx.check(canon(&h) == before, &format!("altered-{}-changes-state", self.what), "a refused message changes the state", case);
            }
        }
        self.ctx.st(1);
    }
}

use crate::toy::seed_rng;

fn vals<T: Serialize>(v: &[T]) -> Vec<Value> {
    v.iter().map(|x| serde_json::to_value(x).expect("ser")).collect()
}

/// one sharing: a verifier's and the dealer's view
pub fn vss<X: Sch>(ctx: &Ctx, n: usize, t: usize) {
    let w = World::<X>::new(n, t);
    let mut d = w.dealer.clone();
    let at = |what: &'static str, from: usize, to: usize| At { ctx, run: format!("{} n={n} t={t}", X::NAME), what, from, to };
    let enc = |d: &X::D| -> Vec<X::ED> {
        (0..n).map(|i| { seed_rng(&format!("tenc{i}")); X::enc(d, i).unwrap() }).collect()
    };
    let deals = enc(&w.dealer);
    let mut dpool = vals(&deals);
    dpool.extend(vals(&enc(&w.dealer2)));
    // the last verifier's deal is wrong, so it complains; its first answer reaches everybody, then the justification
    let bad = n - 1;
    let mut m = X::plain(&mut d, bad).unwrap();
    m.sec_share.v = m.sec_share.v + X::sc(1);
    let wrong = w.enc_as(bad, &m);
    let mut vs: Vec<X::V> = (0..n).map(|i| w.verifier(i)).collect();
    let mut rs: Vec<X::R> = vec![];
    for i in 0..n {
        let m = if i == bad { &wrong } else { &deals[i] };
        let f = |v: &mut X::V, x: &X::ED| X::v_deal(v, x).map(|_| true);
        at("deal", n, i).attack(&vs[i], m, &dpool, true, true, &f);
        match X::v_deal(&mut vs[i], m) {
            Ok(r) => rs.push(r),
            Err(e) => ctx.fail("run-failed", format!("deal for {i}: {e}"), json!({"n": n, "t": t})),
        }
        at("deal", n, i).attack(&vs[i], m, &dpool, false, true, &f);
    }
    let mut rpool = vals(&rs);
    seed_rng("rs2");
    rpool.extend(vals(&(0..n).map(|i| X::resp_signed(&w.sid2, i as u32, true, &w.longs[i])).collect::<Vec<_>>()));
    rpool.extend(vals(&[X::resp_signed(&w.sid, bad as u32, true, &w.longs[bad])]).into_iter().map(|mut v| {
        // its own opposite answer: only its single fields count as foreign
        v["marker"] = json!(1);
        v
    }));
    let mut j: Option<X::J> = None;
    let mut dl = w.dealer.clone();
    for (i, r) in rs.iter().enumerate() {
        let f = |v: &mut X::V, x: &X::R| X::v_resp(v, x).map(|_| false);
        for k in (0..n).filter(|k| *k != i) {
            at("response", i, k).attack(&vs[k], r, &rpool, true, true, &f);
            if let Err(e) = X::v_resp(&mut vs[k], r) {
                ctx.fail("run-failed", format!("response of {i} at {k}: {e}"), json!({"n": n, "t": t}));
            }
            at("response", i, k).attack(&vs[k], r, &rpool, false, true, &f);
        }
        let f = |v: &mut X::D, x: &X::R| X::d_resp(v, x).map(|j| j.is_some());
        at("response", i, n).attack(&dl, r, &rpool, true, true, &f);
        seed_rng("just");
        match X::d_resp(&mut dl, r) {
            Ok(x) => j = x.or(j),
            Err(e) => ctx.fail("run-failed", format!("response of {i} at the dealer: {e}"), json!({"n": n, "t": t})),
        }
        at("response", i, n).attack(&dl, r, &rpool, false, true, &f);
    }
    let Some(j) = j else {
        ctx.fail("run-failed", "no justification", json!({"n": n, "t": t}));
        return;
    };
    let jpool = vals(&[w.just_as(bad, None, true), w.just_as(0, None, false), w.just_as(0, None, true)]);
    for k in 0..n {
        let f = |v: &mut X::V, x: &X::J| X::v_just(v, x).map(|_| false);
        at("justification", n, k).attack(&vs[k], &j, &jpool, true, false, &f);
        if let Err(e) = X::v_just(&mut vs[k], &j) {
            ctx.fail("run-failed", format!("justification at {k}: {e}"), json!({"n": n, "t": t}));
        }
        ctx.check(X::v_certified(&vs[k]), "run-failed", "the sharing is certified at the end", || json!({"n": n, "t": t, "verifier": k}));
    }
    ctx.bound(format!("messages altered in transit, {} n={n} t={t}: every field, element and byte position, and every field of another genuine message, before and after every delivery of one complete run", X::NAME));
}

/// a complete run of the one-phase generation (or resharing)
pub fn dkg<X: Dk>(ctx: &Ctx, dealers: &[usize], holders: &[usize], t: usize, old_t: usize, fresh: bool, bad: Option<(usize, usize)>) {
    let w = DWorld::<X>::build(dealers, holders, t, old_t, fresh, &[], 7, &[]);
    let w2 = DWorld::<X>::build(dealers, holders, t, old_t, fresh, &[], 8, &[]);
    let run = format!("{} dealers {dealers:?} holders {holders:?} t={t} old t={old_t}, wrong deal {bad:?}", X::NAME);
    let at = |what: &'static str, from: usize, to: usize| At { ctx, run: run.clone(), what, from, to };
    let fail = |e: String| ctx.fail("run-failed", e, json!({"run": run}));
    let mut nodes = w.nodes.clone();
    let mut dv: Vec<(usize, usize, X::Deal)> = vec![];
    for d in 0..w.nd() {
        for h in 0..w.nh() {
            let Some(m) = w.deals[d].get(&h) else { continue };
            let m = if bad == Some((d, h)) {
                let mut p = w.good(d, h);
                p.sec_share.v = p.sec_share.v + X::sc(1);
                seed_rng("craft");
                X::craft_deal(w.dealer_node(d), d as u32, h, &p)
            } else {
                m.clone()
            };
            dv.push((d, h, m));
        }
    }
    let dpool = vals(&dv.iter().map(|x| x.2.clone()).collect::<Vec<_>>());
    let mut rs = vec![];
    for (d, h, m) in &dv {
        let k = w.holders[*h];
        let f = |g: &mut X::G, x: &X::Deal| X::on_deal(g, x).map(|_| true);
        // another holder's genuine deal is no deal for this one: only m itself is genuine here
        let pool: Vec<Value> = dpool.clone();
        at("deal", *d, k).attack(&nodes[&k], m, &pool, true, true, &f);
        seed_rng("on_deal");
        match X::on_deal(nodes.get_mut(&k).unwrap(), m) {
            Ok(r) => rs.push((k, r)),
            Err(e) => fail(format!("deal {d} -> {h}: {e}")),
        }
        at("deal", *d, k).attack(&nodes[&k], m, &pool, false, true, &f);
    }
    let mut rpool = vals(&rs.iter().map(|x| x.1.clone()).collect::<Vec<_>>());
    {
        let mut n2 = w2.nodes.clone();
        for d in 0..w2.nd() {
            for h in 0..w2.nh() {
                if let Some(m) = w2.deals[d].get(&h) {
                    seed_rng("on_deal2");
                    if let Ok(r) = X::on_deal(n2.get_mut(&w2.holders[h]).unwrap(), m) {
                        rpool.extend(vals(&[r]));
                    }
                }
            }
        }
    }
    let mut js: Vec<(usize, X::J)> = vec![];
    for (v, r) in &rs {
        let ks: Vec<usize> = nodes.keys().cloned().filter(|k| k != v).collect();
        for k in ks {
            let f = |g: &mut X::G, x: &ps_resp| X::on_resp(g, x).map(|j| j.is_some());
            // a dealer that leaves does not know the sessions of the others: all it can do wrong is to answer
            let leaving = !w.holders.contains(&k);
            at("response", *v, k).attack(&nodes[&k], r, &rpool, !leaving, !leaving, &f);
            seed_rng("on_resp");
            match X::on_resp(nodes.get_mut(&k).unwrap(), r) {
                Ok(Some(j)) => js.push((k, j)),
                Ok(None) => {}
                Err(e) => fail(format!("response of {v} at {k}: {e}")),
            }
            at("response", *v, k).attack(&nodes[&k], r, &rpool, false, !leaving, &f);
        }
    }
    ctx.check(js.len() == bad.is_some() as usize, "run-failed", "one justification for one complaint", || json!({"run": run}));
    for (d, j) in &js {
        let ks: Vec<usize> = w.holders.iter().cloned().filter(|k| k != d).collect();
        for k in ks {
            let f = |g: &mut X::G, x: &X::J| X::on_just(g, x).map(|_| false);
            at("justification", *d, k).attack(&nodes[&k], j, &[], true, false, &f);
            if let Err(e) = X::on_just(nodes.get_mut(&k).unwrap(), j) {
                fail(format!("justification at {k}: {e}"));
            }
        }
    }
    for k in &w.holders {
        ctx.check(X::key(&nodes[k]).is_ok(), "run-failed", "the run ends with a share", || json!({"run": run, "holder": k, "error": X::key(&nodes[k]).err()}));
    }
    ctx.bound(format!("messages altered in transit, {run}: every field, element and byte position, and every field of another genuine message, before and after every delivery of one complete run"));
}
#[allow(non_camel_case_types)]
type ps_resp = kyber_rs::share::dkg::pedersen::structs::Response;

/// a complete run of the two-phase generation: dealer `f` deals wrongly to `b`, justifies, and publishes false commitments
pub fn rabin<X: Rb>(ctx: &Ctx, n: usize, t: usize, f: usize, b: Option<usize>) {
    let w = RWorld::<X>::build(n, t, 7);
    let w2 = RWorld::<X>::build(n, t, 8);
    let run = format!("{} n={n} t={t} dealer {f}, wrong deal {b:?}, false commitments", X::NAME);
    let at = |what: &'static str, from: usize, to: usize| At { ctx, run: run.clone(), what, from, to };
    let fail = |e: String| ctx.fail("run-failed", e, json!({"run": run}));
    let mut gs = w.nodes.clone();
    let mut dv: Vec<(usize, usize, X::Deal)> = vec![];
    for d in 0..n {
        for h in (0..n).filter(|h| *h != d) {
            let m = if d == f && b == Some(h) {
                let mut p = w.good(d, h);
                p.sec_share.v = p.sec_share.v + sc::<X>(1);
                seed_rng("craft");
                X::craft_deal(&w.nodes[d], d as u32, h, &p)
            } else {
                w.deals[d][&h].clone()
            };
            dv.push((d, h, m));
        }
    }
    let dpool = vals(&dv.iter().map(|x| x.2.clone()).collect::<Vec<_>>());
    let mut rs = vec![];
    for (d, h, m) in &dv {
        let f = |g: &mut X::G, x: &X::Deal| X::on_deal(g, x).map(|_| true);
        at("deal", *d, *h).attack(&gs[*h], m, &dpool, true, true, &f);
        seed_rng("on_deal");
        match X::on_deal(&mut gs[*h], m) {
            Ok(r) => rs.push((*h, r)),
            Err(e) => fail(format!("deal {d} -> {h}: {e}")),
        }
        at("deal", *d, *h).attack(&gs[*h], m, &dpool, false, true, &f);
    }
    let mut rpool = vals(&rs.iter().map(|x| x.1.clone()).collect::<Vec<_>>());
    {
        let mut n2 = w2.nodes.clone();
        for d in 0..n {
            for h in (0..n).filter(|h| *h != d) {
                seed_rng("on_deal2");
                if let Ok(r) = X::on_deal(&mut n2[h], &w2.deals[d][&h]) {
                    rpool.extend(vals(&[r]));
                }
            }
        }
    }
    let mut js = vec![];
    for (v, r) in &rs {
        for k in (0..n).filter(|k| k != v) {
            let f = |g: &mut X::G, x: &kyber_rs::share::dkg::rabin::Response| X::on_resp(g, x).map(|j| j.is_some());
            at("response", *v, k).attack(&gs[k], r, &rpool, true, true, &f);
            seed_rng("on_resp");
            match X::on_resp(&mut gs[k], r) {
                Ok(Some(j)) => js.push((k, j)),
                Ok(None) => {}
                Err(e) => fail(format!("response of {v} at {k}: {e}")),
            }
            at("response", *v, k).attack(&gs[k], r, &rpool, false, true, &f);
        }
    }
    ctx.check(js.len() == b.is_some() as usize, "run-failed", "one justification for one complaint", || json!({"run": run}));
    for (d, j) in &js {
        for k in (0..n).filter(|k| k != d) {
            let f = |g: &mut X::G, x: &X::J| X::on_just(g, x).map(|_| false);
            at("justification", *d, k).attack(&gs[k], j, &[], true, false, &f);
            if let Err(e) = X::on_just(&mut gs[k], j) {
                fail(format!("justification at {k}: {e}"));
            }
        }
    }
    // phase 2
    let mut scs: Vec<Sc<X>> = vec![];
    for d in 0..n {
        ctx.check(X::qual(&gs[d]).len() == n, "run-failed", "everybody is qualified", || json!({"run": run, "node": d}));
        seed_rng(&format!("sc{d}"));
        match X::secret_commits(&mut gs[d]) {
            Ok(m) => scs.push(if d == f { false_sc::<X>(&w, d, "constant+1").unwrap() } else { m }),
            Err(e) => return fail(format!("commitments of {d}: {e}")),
        }
    }
    let mut spool = vals(&scs);
    spool.extend(vals(&(0..n).map(|d| false_sc::<X>(&w2, d, "true").unwrap()).collect::<Vec<_>>()));
    let mut ccs: Vec<(usize, Cc<X>)> = vec![];
    for d in (0..n).map(|i| (i + f + 1) % n) {
        for k in (0..n).filter(|k| *k != d) {
            let g = |g: &mut X::G, x: &Sc<X>| X::on_sc(g, x).map(|c| c.is_some());
            at("commitments", d, k).attack(&gs[k], &scs[d], &spool, true, true, &g);
            seed_rng(&format!("cc{k}"));
            match X::on_sc(&mut gs[k], &scs[d]) {
                Ok(c) => {
                    ctx.check(c.is_some() == (d == f), "run-failed", "exactly the false publication is complained about", || json!({"run": run, "of": d, "at": k}));
                    ccs.extend(c.map(|c| (k, c)));
                }
                Err(e) => fail(format!("commitments of {d} at {k}: {e}")),
            }
            at("commitments", d, k).attack(&gs[k], &scs[d], &spool, false, true, &g);
        }
    }
    let mut cpool = vals(&ccs.iter().map(|x| x.1.clone()).collect::<Vec<_>>());
    for d in 0..n {
        for k in (0..n).filter(|k| *k != d) {
            for (z, x) in [&w, &w2].into_iter().enumerate() {
                seed_rng("cpool");
                let m = X::sign_cc(&crate::p_rab::MCc { index: k as u32, dealer_index: d as u32, deal: x.good(d, k), signature: vec![] }, &w.keys[k]);
                // genuine in the other run, or about a dealer nobody complained about: material only
                let mut v = serde_json::to_value(&m).unwrap();
                v["marker"] = json!(z);
                cpool.push(v);
            }
        }
    }
    let Some((by, cc)) = ccs.first().cloned() else { return fail("no complaint".into()) };
    let mut rcs: Vec<(usize, Rc<X>)> = vec![];
    for k in (0..n).filter(|k| *k != f) {
        let g = |g: &mut X::G, x: &Cc<X>| X::on_cc(g, x).map(|_| true);
        at("complaint", by, k).attack(&gs[k], &cc, &cpool, true, true, &g);
        seed_rng(&format!("rc{k}"));
        match X::on_cc(&mut gs[k], &cc) {
            Ok(m) => rcs.push((k, m)),
            Err(e) => fail(format!("complaint at {k}: {e}")),
        }
        at("complaint", by, k).attack(&gs[k], &cc, &cpool, false, true, &g);
    }
    let mut pool = vals(&rcs.iter().map(|x| x.1.clone()).collect::<Vec<_>>());
    for x in [&w, &w2] {
        for d in 0..n {
            for k in (0..n).filter(|k| *k != d) {
                let m: Rc<X> = X::sign_rc(&crate::p_rab::MRc { session_id: x.sids[d].clone(), index: k as u32, dealer_index: d as u32, share: conv(&x.good(d, k).sec_share), signature: vec![] }, &w.keys[k]);
                let mut v = serde_json::to_value(&m).unwrap();
                v["marker"] = json!(0);
                pool.push(v);
            }
        }
    }
    for (v, m) in &rcs {
        for k in (0..n).filter(|k| k != v && *k != f) {
            let g = |g: &mut X::G, x: &Rc<X>| X::on_rc(g, x).map(|_| false);
            let strict = {
                let mut h = gs[k].clone();
                let c = canon(&h);
                let _ = guard(|| X::on_rc(&mut h, m));
                canon(&h) != c
            };
            at("revealed-share", *v, k).attack(&gs[k], m, &pool, strict, true, &g);
            if let Err(e) = X::on_rc(&mut gs[k], m) {
                if strict {
                    fail(format!("revealed share of {v} at {k}: {e}"));
                }
            }
            at("revealed-share", *v, k).attack(&gs[k], m, &pool, false, true, &g);
        }
    }
    for k in (0..n).filter(|k| *k != f) {
        ctx.check(X::key(&gs[k]).is_ok(), "run-failed", "the run ends with a share", || json!({"run": run, "node": k}));
    }
    ctx.bound(format!("messages altered in transit, {run}: every field, element and byte position, and every field of another genuine message, before and after every delivery of one complete run"));
}
