#[macro_use]
mod ctx;
#[macro_use]
mod model;
mod c01;
mod c04;
mod c08;
mod c11;
mod c14;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
use ctx::*;

#[global_allocator]
static ALLOC: c18::Scan = c18::Scan;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    let num = |i: usize, d: u64| a.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
    match id.as_str() {
        "transcript" => {
            install_panic_hook();
            return c17::transcript(num(2, 1));
        }
        "race" => return c17::race(num(2, 1), num(3, 4) as usize, num(4, 1) as usize),
        _ => {}
    }
    let root = std::env::var("DVE_ROOT").unwrap_or_else(|_| "/verif".into());
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut only = None;
    let mut i = 2;
    while i < a.len() {
        match a[i].as_str() {
            "--tier" => {
                tier = if a[i + 1] == "thorough" { Tier::Thorough } else { Tier::Quick };
                i += 1;
            }
            "--replay" => {
                let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[i + 1]).unwrap()).unwrap();
                seed = v["seed"].as_u64().unwrap();
                tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
                if v["second"].as_bool().unwrap_or(false) != AUX {
                    return; // the case of the other build
                }
                only = Some((v["kind"].as_str().unwrap().to_string(), v["index"].as_u64().unwrap()));
                i += 1;
            }
            x => {
                println!("unknown argument {x}");
                std::process::exit(2)
            }
        }
        i += 1;
    }
    let limit = std::env::var("DVE_WATCHDOG").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Thorough { 7200u64 } else if AUX { 240 } else { 600 });
    install_panic_hook();
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(&id, tier, seed, only, &format!("{root}/known_findings.jsonl"))));
    let at = root.clone();
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        std::process::exit(ctx.time_up(limit, limit * 2 / 3, &at));
    });
    let r = guard(|| match id.as_str() {
        "C01" => c01::c01(ctx),
        "C02" => c01::c02(ctx),
        "C03" => c01::c03(ctx),
        "C04" => c04::c04(ctx),
        "C05" => c04::c05(ctx),
        "C06" => c04::c06(ctx),
        "C07" => c04::c07(ctx),
        "C08" => c08::c08(ctx),
        "C09" => c08::c09(ctx),
        "C10" => c08::c10(ctx),
        "C11" => c11::c11(ctx),
        "C12" => c11::c12(ctx),
        "C13" => c11::c13(ctx),
        "C14" => c14::c14(ctx),
        "C15" => c14::c15(ctx),
        "C16" => c16::c16(ctx),
        "C17" => c17::c17(ctx),
        "C18" => c18::c18(ctx),
        "C19" => c19::c19(ctx),
        "C20" => c20::c20(ctx),
        "C21" => c21::c21(ctx),
        "C22" => c22::c22(ctx),
        "C23" => c23::c23(ctx),
        _ => {
            println!("unknown property {id:?}");
            std::process::exit(2)
        }
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(m)) => ctx.violate("fixture", 0, m),
        Err(p) => ctx.violate("fixture", 0, format!("panic: {p}")),
    }
    std::process::exit(ctx.finish(&root));
}
