mod engine;
mod explore;
mod p_analysis;
mod p_cli;
mod p_io;
mod p_large;
mod p_shapes;
mod p_sim;
mod proc;
mod refm;
mod universe;
use engine::*;

fn property(id: &str, t: Tier) -> Option<Property> {
    p_analysis::property(id, t).or_else(|| p_io::property(id, t)).or_else(|| p_sim::property(id, t)).or_else(|| p_cli::property(id, t))
}
fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let id = args.first().expect("usage: mc <property> [quick|thorough] [--only f:i] [--family X] [--replay FILE]").clone();
    let verif = std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into());
    let mut tier = match std::env::var("MC_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut only = None;
    let mut fam = None;
    let mut k = 1;
    while k < args.len() {
        match args[k].as_str() {
            "quick" => tier = Tier::Quick,
            "thorough" => tier = Tier::Thorough,
            "--only" => {
                k += 1;
                let (a, b) = args[k].split_once(':').unwrap();
                only = Some((a.parse().unwrap(), b.parse().unwrap()));
            }
            "--family" => {
                k += 1;
                fam = Some(args[k].clone());
            }
            "--replay" => {
                k += 1;
                let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[k]).unwrap()).unwrap();
                tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
                only = Some((v["family_index"].as_u64().unwrap() as usize, v["index"].as_u64().unwrap()));
            }
            x => panic!("unknown argument {}", x),
        }
        k += 1;
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let prop = property(&id, tier).unwrap_or_else(|| panic!("no property {}", id));
    let mut o = Opts { tier, seed, verif, only, family_filter: fam, slots: String::new() };
    let code = match std::env::var("MC_CHILD") {
        Ok(s) => {
            o.slots = s;
            explore(prop, &o)
        }
        Err(_) => supervise(prop, &o, &args),
    };
    std::process::exit(code);
}
