mod canon;
mod engine;
mod p_dkg;
mod p_dss;
mod p_rab;
mod p_deal;
mod p_fresh;
mod p_renew;
mod p_save;
mod p_crash;
mod p_cross;
mod p_int;
mod p_point;
mod p_poly;
mod p_scalar;
mod p_sig;
mod p_sym;
mod p_tamper;
mod p_vss;
mod refcurve;
mod toy;

use engine::*;

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub exhaustive: bool,
    pub run: fn(&Ctx) -> i32,
    pub assumptions: &'static [&'static str],
}

mod registry;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let tier = match args.get(2).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let checks = registry::checks();
    if id == "list" {
        for c in &checks {
            println!("{} {}", c.id, c.level);
        }
        return;
    }
    let c = match checks.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    };
    install_hooks();
    start_watchdog(&id, &format!("{verif}/replays"));
    let ctx = Ctx::new(&id, tier);
    // run on a big stack: deep recursion in explorers
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, || (c.run)(&ctx))
            .unwrap()
            .join()
    });
    match r {
        Ok(_) => {}
        Err(_) => {
            let what = engine::ENGINE_PANIC.lock().map(|e| e.clone().unwrap_or_default()).unwrap_or_default();
            if what.contains("os error") || what.contains("Os {") || what.contains("replay") {
                eprintln!("engine error in {id}: {what}");
                std::process::exit(3);
            }
            // the exploration stands on honest steps that always succeed: one of them failed
            ctx.fail("honest-step-failed", format!("an operation that has to succeed did not: {what}"), serde_json::json!({"panic": what.clone()}));
        }
    }
    std::process::exit(ctx.finish(c.level, c.rule, c.exhaustive, c.assumptions, &verif));
}
