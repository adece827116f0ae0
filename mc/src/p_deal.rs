//! C15: an encrypted deal opens for its addressee only, under the stated dealer and participant list, and
//! untampered. Every mismatch, every single fault of every field, every recombination of fields.
use crate::engine::*;
use crate::p_vss::*;
use crate::toy::seed_rng;
use serde_json::{json, Value};

/// the fields of the message as they travel
#[derive(Clone, PartialEq, Debug)]
struct Wire {
    dh: Vec<u8>,
    sig: Vec<u8>,
    nonce: Vec<u8>,
    cipher: Vec<u8>,
}
fn point_bytes<X: Sch>(v: &Value) -> Vec<u8> {
    let p: X::P = serde_json::from_value(v.clone()).expect("point");
    kyber_rs::encoding::BinaryMarshaler::marshal_binary(&p).expect("point")
}
fn wire<X: Sch>(e: &X::ED) -> Wire {
    let v = serde_json::to_value(e).expect("ser");
    let b = |k: &str| serde_json::from_value::<Vec<u8>>(v[k].clone()).expect("bytes");
    Wire { dh: point_bytes::<X>(&v["dhkey"]), sig: b("signature"), nonce: b("nonce"), cipher: b("cipher") }
}
/// None: the ephemeral key does not decode, so there is no such message
fn unwire<X: Sch>(tpl: &X::ED, w: &Wire) -> Option<X::ED> {
    use kyber_rs::encoding::BinaryUnmarshaler;
    let mut v = serde_json::to_value(tpl).expect("ser");
    if w.dh != point_bytes::<X>(&v["dhkey"]) {
        let mut p: X::P = serde_json::from_value(v["dhkey"].clone()).expect("point");
        guard(|| p.unmarshal_binary(&w.dh).is_ok()).ok().filter(|x| *x)?;
        v["dhkey"] = serde_json::to_value(&p).expect("ser");
    }
    v["signature"] = json!(w.sig);
    v["nonce"] = json!(w.nonce);
    v["cipher"] = json!(w.cipher);
    Some(serde_json::from_value(v).expect("de"))
}

struct St<X: Sch> {
    w: World<X>,
    deals: Vec<X::ED>,
    plain: Vec<MD<X>>,
}
fn build<X: Sch>(n: usize, t: usize) -> St<X> {
    let w = World::<X>::new(n, t);
    let mut d = w.dealer.clone();
    let mut deals = vec![];
    let mut plain = vec![];
    for i in 0..n {
        seed_rng(&format!("deal{i}"));
        deals.push(X::enc(&d, i).expect("enc"));
        plain.push(X::plain(&mut d, i).expect("plain"));
    }
    St { w, deals, plain }
}

/// whatever e is, this verifier must refuse it and stay as it was
fn refuse<X: Sch>(ctx: &Ctx, v: &X::V, e: &X::ED, key: &str, case: &dyn Fn() -> Value) {
    ctx.eval();
    match guard(|| X::decrypt(v, e)) {
        Err(p) => ctx.fail("panic", format!("decrypt_deal panicked: {p}"), case()),
        Ok(Ok(_)) => ctx.fail(key, "the deal must not open", case()),
        Ok(Err(_)) => {}
    }
    let mut h = v.clone();
    seed_rng("proc");
    match guard(|| X::v_deal(&mut h, e)) {
        Err(p) => ctx.fail("panic", format!("process_encrypted_deal panicked: {p}"), case()),
        Ok(Ok(_)) => ctx.fail(key, "the deal must be refused", case()),
        Ok(Err(_)) => {
            ctx.check(canon(&h) == canon(v), "refused-changes-state", "a refused deal must leave the verifier as it was", || case());
            ctx.outcome("refused");
        }
    }
}
fn accept<X: Sch>(ctx: &Ctx, v: &X::V, e: &X::ED, want: &MD<X>, case: &dyn Fn() -> Value) {
    ctx.eval();
    match guard(|| X::decrypt(v, e)) {
        Err(p) => ctx.fail("panic", format!("decrypt_deal panicked: {p}"), case()),
        Ok(r) => {
            ctx.check(r.as_ref().ok() == Some(want), "wrong-content", "the addressee must read exactly the dealt content", || {
            let mut c = case();
            c["got"] = json!(format!("{:?}", r.as_ref().map(|m| m.sec_share.i).map_err(|e| e.clone())));
            c
            });
        }
    }
    let mut h = v.clone();
    seed_rng("proc");
    match guard(|| X::v_deal(&mut h, e)) {
        Err(p) => ctx.fail("panic", format!("process_encrypted_deal panicked: {p}"), case()),
        Ok(Ok(r)) => {
            let (sid, idx, ok, _) = X::rparts(&r);
            ctx.check(ok && idx as usize == want.sec_share.i && sid == want.session_id, "not-approved", "an honest deal must be approved by its addressee", || case());
            ctx.outcome("accepted");
            ctx.nontriv();
        }
        Ok(Err(e)) => ctx.fail("genuine-refused", e, case()),
    }
}

/// all sequences of fields and lists that differ from the right ones
fn mismatches<X: Sch>(ctx: &Ctx, n: usize, t: usize, full: bool) {
    let s = build::<X>(n, t);
    let w = &s.w;
    let base = |what: &str| json!({"scheme": X::NAME, "n": n, "t": t, "what": what});
    // recipients
    for i in 0..n {
        for j in 0..n {
            let v = w.verifier(j);
            let case = || {
                let mut c = base("recipient");
                c["deal of"] = json!(i);
                c["opened by"] = json!(j);
                c
            };
            if i == j {
                accept::<X>(ctx, &v, &s.deals[i], &s.plain[i], &case);
            } else {
                refuse::<X>(ctx, &v, &s.deals[i], "opened-by-another", &case);
            }
        }
    }
    // another stated dealer
    let dlong2 = X::sc(555_000_111);
    let dpub2 = X::pt(&dlong2);
    let mut dealers: Vec<(String, X::P)> = vec![("another dealer".into(), dpub2.clone()), ("neutral element".into(), X::pt(&X::sc(0))), ("negated dealer".into(), X::pt(&X::sc(-777_777_777)))];
    for k in 0..n {
        dealers.push((format!("participant {k}"), w.pubs[k].clone()));
    }
    for i in 0..n {
        for (id, dp) in &dealers {
            let Ok(Ok(v)) = guard(|| X::verifier(&w.longs[i], dp, &w.pubs)) else { continue };
            refuse::<X>(ctx, &v, &s.deals[i], "opened-for-another-dealer", &|| base(&format!("verifier {i} expects {id}")));
        }
    }
    // another participant list
    let stranger = X::pt(&X::sc(31_337));
    let mut lists: Vec<(String, Vec<X::P>)> = vec![];
    for k in 0..n {
        let mut l = w.pubs.clone();
        l[k] = stranger.clone();
        lists.push((format!("position {k} replaced"), l));
        let mut l = w.pubs.clone();
        l.remove(k);
        lists.push((format!("position {k} removed"), l));
        for m in 0..k {
            let mut l = w.pubs.clone();
            l.swap(k, m);
            lists.push((format!("positions {m} and {k} swapped"), l));
            let mut l = w.pubs.clone();
            l[k] = l[m].clone();
            lists.push((format!("position {k} replaced by {m}"), l));
        }
        let mut l = w.pubs.clone();
        l.insert(k, stranger.clone());
        lists.push((format!("stranger inserted at {k}"), l));
    }
    let mut l = w.pubs.clone();
    l.push(stranger.clone());
    lists.push(("stranger appended".into(), l));
    let mut l = w.pubs.clone();
    l.push(w.pubs[n - 1].clone());
    lists.push(("last repeated".into(), l));
    if full {
        for p in perms(n) {
            if p.iter().enumerate().any(|(a, b)| a != *b) {
                lists.push((format!("order {p:?}"), p.iter().map(|k| w.pubs[*k].clone()).collect()));
            }
        }
    }
    for (id, l) in &lists {
        for i in 0..n {
            let Ok(Ok(v)) = guard(|| X::verifier(&w.longs[i], &w.dpub, l)) else { continue };
            for j in 0..n {
                if i == j || full {
                    refuse::<X>(ctx, &v, &s.deals[j], "opened-under-another-list", &|| base(&format!("verifier {i}, deal of {j}, list: {id}")));
                }
            }
        }
    }
    // a dealer that encrypts the deal of one participant for another
    for i in 0..n {
        for j in 0..n {
            if i != j {
                let e = w.enc_as(i, &s.plain[j]);
                let mut v = w.verifier(i);
                let before = canon(&v);
                let r = guard(|| X::v_deal(&mut v, &e));
                ctx.eval();
                ctx.check(matches!(r, Ok(Err(_))) && canon(&v) == before, "deal-of-another-accepted", "a deal with another's share must be refused", || base(&format!("deal of {j} encrypted for {i}")));
            }
        }
    }
    // not signed by the dealer: the same content and context, encrypted by somebody else
    for (id, k) in [("an outsider", X::sc(999_111)), ("another dealer", dlong2.clone())].into_iter().chain((0..n).map(|k| ("a participant", w.longs[k].clone()))) {
        let mut js = serde_json::to_value(&w.dealer).expect("ser");
        js["long"] = serde_json::to_value(&k).expect("ser");
        let d: X::D = serde_json::from_value(js).expect("de");
        for i in 0..n {
            seed_rng("forged");
            let e = X::enc(&d, i).expect("enc");
            refuse::<X>(ctx, &w.verifier(i), &e, "opened-unsigned", &|| base(&format!("encrypted for {i} by {id}")));
        }
    }
    // two encryptions of the same deal are unrelated, and both open
    for i in 0..n {
        seed_rng("second");
        let e = X::enc(&w.dealer, i).expect("enc");
        accept::<X>(ctx, &w.verifier(i), &e, &s.plain[i], &|| base(&format!("second encryption for {i}")));
        let (a, b) = (wire::<X>(&s.deals[i]), wire::<X>(&e));
        ctx.check(a.dh != b.dh && a.cipher != b.cipher, "encryption-repeats", "each deal is encrypted under a fresh ephemeral key", || base("second encryption"));
    }
    // shares recombine
    let opened: Vec<MD<X>> = (0..n).filter_map(|i| X::decrypt(&w.verifier(i), &s.deals[i]).ok()).collect();
    if opened.len() == n {
        for k in 0..=n {
            for sub in subsets(n, k) {
                if !full && k > t + 1 {
                    continue;
                }
                ctx.eval();
                let d: Vec<MD<X>> = sub.iter().map(|i| opened[*i].clone()).collect();
                let r = guard(|| X::recover(&d, n, t));
                if k >= t {
                    ctx.check(matches!(&r, Ok(Ok(x)) if *x == w.secret), "recombination", "any t opened deals must give the dealer's secret", || base(&format!("deals of {sub:?}")));
                } else {
                    ctx.check(matches!(&r, Ok(Err(_))), "recombination-early", "fewer than t deals give an error", || base(&format!("deals of {sub:?}")));
                }
            }
        }
    }
}

/// every single fault of every field
fn faults<X: Sch>(ctx: &Ctx, n: usize, t: usize, i: usize, all_values: bool) {
    let s = build::<X>(n, t);
    let v = s.w.verifier(i);
    let e = &s.deals[i];
    let good = wire::<X>(e);
    ctx.check(unwire::<X>(e, &good).map(|x| wire::<X>(&x)) == Some(good.clone()), "wire", "the message survives its wire form", || json!({"scheme": X::NAME}));
    let get = |w: &Wire, f: usize| [&w.dh, &w.sig, &w.nonce, &w.cipher][f].clone();
    let set = |w: &Wire, f: usize, b: Vec<u8>| {
        let mut w = w.clone();
        match f {
            0 => w.dh = b,
            1 => w.sig = b,
            2 => w.nonce = b,
            _ => w.cipher = b,
        }
        w
    };
    let names = ["ephemeral key", "signature", "nonce", "cipher"];
    let mut items: Vec<(usize, String, Vec<u8>)> = vec![];
    for f in 0..4 {
        let b = get(&good, f);
        for k in 0..b.len() {
            let vals: Vec<u8> = if all_values { (1..=255u8).collect() } else { (0..8).map(|j| 1u8 << j).chain([0xff, b[k], b[k] ^ 0xff]).filter(|x| *x != 0).collect() };
            for x in vals {
                let mut c = b.clone();
                c[k] ^= x;
                items.push((f, format!("byte {k} xor {x:#x}"), c));
            }
            // two adjacent bytes swapped, one removed, one inserted
            if k + 1 < b.len() && b[k] != b[k + 1] {
                let mut c = b.clone();
                c.swap(k, k + 1);
                items.push((f, format!("bytes {k} and {} swapped", k + 1), c));
            }
            let mut c = b.clone();
            c.remove(k);
            items.push((f, format!("byte {k} removed"), c));
            let mut c = b.clone();
            c.insert(k, 0);
            items.push((f, format!("zero inserted at {k}"), c));
        }
        for l in 0..b.len() {
            items.push((f, format!("cut to {l}"), b[..l].to_vec()));
        }
        for l in [1usize, 2, 4, 8, 16, 32, 64] {
            items.push((f, format!("{l} zeros appended"), [b.clone(), vec![0; l]].concat()));
        }
        items.push((f, "doubled".into(), [b.clone(), b.clone()].concat()));
        items.push((f, "all zero".into(), vec![0; b.len()]));
        items.push((f, "all ones".into(), vec![255; b.len()]));
    }
    par_items(&items, |(f, id, b)| {
        if *b == get(&good, *f) {
            return;
        }
        let Some(m) = unwire::<X>(e, &set(&good, *f, b.clone())) else {
            ctx.outcome("ephemeral key does not decode");
            return;
        };
        // another encoding of the same point is the same message
        if wire::<X>(&m) == good {
            return;
        }
        refuse::<X>(ctx, &v, &m, &format!("altered-{}", names[*f].replace(' ', "-")), &|| json!({"scheme": X::NAME, "n": n, "t": t, "recipient": i, "field": names[*f], "fault": id}));
    });
    // special ephemeral keys under the original signature
    for k in [0i64, 1, -1, 777_777_777, 1_000_003] {
        let p = X::pt(&X::sc(k));
        let mut js = serde_json::to_value(e).expect("ser");
        js["dhkey"] = serde_json::to_value(&p).expect("ser");
        let m: X::ED = serde_json::from_value(js).expect("de");
        refuse::<X>(ctx, &v, &m, "altered-ephemeral-key", &|| json!({"scheme": X::NAME, "n": n, "t": t, "recipient": i, "ephemeral key": format!("{k}*G")}));
    }
}

/// every recombination of the fields of two messages
fn mixes<X: Sch>(ctx: &Ctx, n: usize, t: usize) {
    let s = build::<X>(n, t);
    let w = &s.w;
    let mut pool: Vec<(String, Option<usize>, X::ED)> = vec![];
    for i in 0..n {
        pool.push((format!("deal {i}"), Some(i), s.deals[i].clone()));
        seed_rng("again");
        pool.push((format!("deal {i}, second encryption"), Some(i), X::enc(&w.dealer, i).expect("enc")));
        seed_rng("other");
        pool.push((format!("deal {i} of the second sharing"), Some(i), X::enc(&w.dealer2, i).expect("enc")));
    }
    let items: Vec<(usize, usize)> = (0..pool.len()).flat_map(|a| (0..pool.len()).filter(move |b| a != *b).map(move |b| (a, b))).collect();
    par_items(&items, |(a, b)| {
        let (wa, wb) = (wire::<X>(&pool[*a].2), wire::<X>(&pool[*b].2));
        for mask in 1..15u32 {
            let p = |k: u32, x: &Vec<u8>, y: &Vec<u8>| if mask >> k & 1 == 1 { y.clone() } else { x.clone() };
            let m = Wire { dh: p(0, &wa.dh, &wb.dh), sig: p(1, &wa.sig, &wb.sig), nonce: p(2, &wa.nonce, &wb.nonce), cipher: p(3, &wa.cipher, &wb.cipher) };
            if m == wa || m == wb {
                continue;
            }
            let Some(e) = unwire::<X>(&pool[*a].2, &m) else { continue };
            for i in 0..n {
                refuse::<X>(ctx, &w.verifier(i), &e, "mixed-opened", &|| json!({"scheme": X::NAME, "n": n, "t": t, "of": pool[*a].0, "and": pool[*b].0, "fields from the second (ephemeral, signature, nonce, cipher)": format!("{mask:04b}"), "opened by": i}));
            }
        }
    });
    // deals of the second sharing open too, with their own content
    for i in 0..n {
        let mut d = w.dealer2.clone();
        let m = X::plain(&mut d, i).expect("plain");
        for (id, o, e) in &pool {
            if *o == Some(i) && id.ends_with("second sharing") {
                accept::<X>(ctx, &w.verifier(i), e, &m, &|| json!({"scheme": X::NAME, "what": id}));
            }
        }
    }
}

fn run<X: Sch>(ctx: &Ctx, real: bool) {
    let mut cfg = vec![];
    let top = if real { ctx.pick(4, 6) } else { ctx.pick(8, 12) };
    for n in 2..=top {
        for t in 2..=n {
            if n > 4 && t != 2 && t != n / 2 + 1 && !(ctx.thorough() && !real) {
                continue;
            }
            if real && n == 4 && t == 3 && !ctx.thorough() {
                continue;
            }
            cfg.push((n, t));
        }
    }
    // many participants, long deals
    cfg.extend(if real { ctx.pick(vec![(9, 9)], vec![(9, 9), (17, 12), (33, 33)]) } else { ctx.pick(vec![(17, 9), (18, 18), (33, 4)], vec![(17, 9), (18, 18), (33, 4), (33, 33), (66, 34)]) });
    cfg.reverse();
    par_items(&cfg, |(n, t)| mismatches::<X>(ctx, *n, *t, *n <= if real { 3 } else { ctx.pick(4, 5) }));
    for (n, t) in if real { ctx.pick(vec![(2, 2)], vec![(2, 2), (3, 2), (4, 3)]) } else { vec![(2, 2), (3, 2), (3, 3), (5, 3)] } {
        for i in 0..n {
            if real && !ctx.thorough() && i > 0 {
                continue;
            }
            faults::<X>(ctx, n, t, i, !real || ctx.thorough());
        }
    }
    mixes::<X>(ctx, if real { ctx.pick(2, 3) } else { 3 }, 2);
}

pub fn c15(ctx: &Ctx) -> i32 {
    run::<PedToy>(ctx, false);
    run::<RabToy>(ctx, false);
    run::<PedEd>(ctx, true);
    run::<RabEd>(ctx, true);
    ctx.bound("both schemes; toy group n<=8 (thorough 12), Ed25519 n<=4 (thorough 6): every deal at every verifier, every other stated dealer in the menu, every participant list that differs in one position, by one insertion, removal or swap (all orders for n<=4)");
    ctx.bound("many participants: toy n = 17, 18, 33 (thorough 66), Ed25519 n = 9 (thorough 17, 33), deals of up to 18 (thorough 34) commitments");
    ctx.bound("toy: every value of every byte of every field, every truncation, insertion and removal; Ed25519: every bit (thorough: every value) of every byte, every truncation");
    ctx.bound("every recombination of the four fields of any two messages of two sharings");
    0
}
