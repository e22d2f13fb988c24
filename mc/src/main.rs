#![allow(clippy::type_complexity)]
mod checks;
mod cmp;
mod dd;
mod engine;
mod gen;
mod model;
use engine::*;

type Builder = fn(&Opts) -> (Meta, Vec<Case>);
const CHECKS: &[(&str, Builder)] = &[
    ("C01", checks::eval::c01),
    ("C02", checks::eval::c02),
    ("C03", checks::eval::c03),
    ("C04", checks::eval::c04),
    ("C05", checks::eval::c05),
    ("C06", checks::eval::c06),
    ("C07", checks::ops::c07),
    ("C08", checks::ops::c08),
    ("C09", checks::ops::c09),
    ("C10", checks::ops::c10),
    ("C11", checks::merge::c11),
    ("C12", checks::merge::c12),
    ("C13", checks::merge::c13),
    ("C14", checks::merge::c14),
    ("C15", checks::fit::c15),
    ("C16", checks::fit::c16),
    ("C17", checks::fit::c17),
    ("C18", checks::fit::c18),
    ("C19", checks::knots::c19),
    ("C20", checks::knots::c20),
    ("C21", checks::knots::c21),
    ("C22", checks::knots::c22),
    ("C23", checks::knots::c23),
    ("C24", checks::hist::c24),
    ("C25", checks::hist::c25),
    ("C26", checks::meta::c26),
    ("C27", checks::meta::c27),
    ("C28", checks::meta::c28),
    ("C29", checks::sub::c29),
];

/// Checks whose middle space takes more than about 30 s: the quick command explores the small space.
const EXPENSIVE: &[&str] = &["C03", "C06", "C07", "C08", "C09", "C13", "C24", "C29"];

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(id) = args.first() else {
        eprintln!("usage: mc <property> [--only <case key>]");
        std::process::exit(3);
    };
    let Some((id, b)) = CHECKS.iter().find(|(i, _)| i == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(3);
    };
    let only = args.iter().position(|a| a == "--only").and_then(|i| args.get(i + 1)).cloned();
    let thorough = std::env::var("MC_TIER").or_else(|_| std::env::var("VERIF_TIER")).as_deref() == Ok("thorough");
    let tier = match (thorough, EXPENSIVE.contains(id)) {
        (true, false) => Tier::Deep,
        (false, true) => Tier::Quick,
        _ => Tier::Thorough,
    };
    let command = if thorough { "thorough" } else { "quick" };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let root = std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into());
    let o = Opts { id, tier, command, seed, only, root };
    install_hook();
    let (meta, cases) = b(&o);
    std::process::exit(run(&o, meta, cases));
}
