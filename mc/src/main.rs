//! Explicit-state model checking of the halotrade contracts: `mc check PROP [--thorough]`,
//! `mc replay FILE`, `mc list`.
mod chain;
mod explore;
mod gx;
mod ops;
mod p_factory;
mod p_num;
mod p_pair;
mod p_router;
mod p_token;
mod refmodel;
mod rep;
mod worlds;
use rep::*;

type F = fn(&Check) -> &'static [&'static str];
const PROPS: [(&str, F); 31] = [
    ("C01", p_pair::c01),
    ("C02", p_pair::c02),
    ("C03", p_pair::c03),
    ("C04", p_pair::c04),
    ("C05", p_pair::c05),
    ("C06", p_pair::c06),
    ("C07", p_pair::c07),
    ("C08", p_pair::c08),
    ("C09", p_pair::c09),
    ("C10", p_pair::c10),
    ("C11", p_pair::c11),
    ("C12", p_pair::c12),
    ("C13", p_pair::c13),
    ("C14", p_factory::c14),
    ("C15", p_factory::c15),
    ("C16", p_factory::c16),
    ("C17", p_factory::c17),
    ("C18", p_factory::c18),
    ("C19", p_router::c19),
    ("C20", p_router::c20),
    ("C21", p_router::c21),
    ("C22", p_router::c22),
    ("C23", p_router::c23),
    ("C24", p_token::c24),
    ("C25", p_token::c25),
    ("C26", p_token::c26),
    ("C27", p_num::c27),
    ("C28", p_num::c28),
    ("C29", p_num::c29),
    ("C30", p_factory::c30),
    ("C31", p_pair::c31),
];

fn find(p: &str) -> Option<(&'static str, F)> {
    PROPS.iter().copied().find(|x| x.0 == p)
}

fn check(p: &str, tier: Tier) -> i32 {
    let Some((p, f)) = find(p) else {
        eprintln!("unknown property {}", p);
        return 2;
    };
    let c = Check::new(p, tier);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&c))) {
        Ok(a) => c.finish(a),
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            // what was found before the harness stopped still counts
            c.error(format!("the harness stopped: {}", m));
            c.finish(&[])
        }
    }
}

fn replay(file: &str) -> i32 {
    let s = match std::fs::read_to_string(file) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let v: serde_json::Value = serde_json::from_str(&s).expect("a replay file");
    let prop = v["property"].as_str().expect("property").to_string();
    println!("recorded: {}", v["what"].as_str().unwrap_or(""));
    let t = |k: &str| v[k].as_str().unwrap_or("").to_string();
    let discs = match t("kind").as_str() {
        "chain" => {
            let spec: ops::Spec = serde_json::from_str(&t("spec")).expect("spec");
            let path: Vec<ops::Op> = serde_json::from_str(&t("ops")).expect("ops");
            explore::replay(&spec, &path)
        }
        "factory" => p_factory::replay(&v),
        "token" => p_token::replay(&v),
        _ => vec![],
    };
    let mut bad = false;
    for d in &discs {
        println!("{:?}: {}", d.0, d.1);
        bad |= d.0.contains(&prop.as_str());
    }
    if bad {
        println!("reproduced");
        return 1;
    }
    // found by a rule over states or by enumeration: the whole check decides
    println!("the operations alone show nothing; running the check again");
    let tier = if t("tier") == "thorough" { Tier::Thorough } else { Tier::Quick };
    check(&prop, tier)
}

fn main() {
    if std::env::var("MC_PANICS").as_deref() != Ok("1") {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().collect();
    let thorough = a.iter().any(|x| x == "--thorough")
        || std::env::var("VERIF_TIER").as_deref() == Ok("thorough") && !a.iter().any(|x| x == "--quick");
    let tier = if thorough { Tier::Thorough } else { Tier::Quick };
    let r = match (a.get(1).map(|s| s.as_str()), a.get(2)) {
        (Some("check"), Some(p)) => check(p, tier),
        (Some("replay"), Some(f)) => replay(f),
        (Some("list"), _) => {
            for p in PROPS {
                println!("{}", p.0);
            }
            0
        }
        _ => {
            eprintln!("mc check PROP [--thorough|--quick] | mc replay FILE | mc list");
            2
        }
    };
    std::process::exit(r);
}
