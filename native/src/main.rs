//! native: runs the executable form of the contracts against the real crates in /repo.
//! usage: native PROP TIER SEED RESULT.json [--only N] [--trace FILE] [--budget S]
#![allow(clippy::all)]
#[macro_use]
mod core;
mod builder;
mod conv;
mod ellipse;
mod geo;
mod graphs;
mod lex;
mod path;
mod ramp;
mod small;
mod spline;
mod vecopt;
mod vis;
use crate::core::Ctx;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let thorough = a[2] == "thorough";
    let seed: u64 = a[3].parse().unwrap_or(1);
    let mut only = None;
    let mut trace = None;
    let mut budget = if thorough { 240 } else { 8 };
    let mut i = 5;
    while i + 1 < a.len() {
        match a[i].as_str() {
            "--only" => only = a[i + 1].parse().ok(),
            "--trace" => trace = Some(a[i + 1].clone()),
            "--budget" => budget = a[i + 1].parse().unwrap(),
            _ => {}
        }
        i += 2;
    }
    let mut c = Ctx::new(thorough, seed, &a[4], only, trace, budget);
    match prop.as_str() {
        "C01" => ramp::c01(&mut c),
        "C02" => ramp::c02(&mut c),
        "C03" => ramp::c03(&mut c),
        "C04" => ramp::c04(&mut c),
        "C05" => graphs::c05(&mut c),
        "C06" => graphs::c06(&mut c),
        "C07" => graphs::c07(&mut c),
        "C08" => graphs::c08(&mut c),
        "C09" => graphs::c09(&mut c),
        "C10" => graphs::c10(&mut c),
        "C11" => graphs::c11(&mut c),
        "C12" => graphs::c12(&mut c),
        "C13" => graphs::c13(&mut c),
        "C14" => graphs::c14(&mut c),
        "C23" => geo::c23(&mut c),
        "C24" => geo::c24(&mut c),
        "C29" => geo::c29(&mut c),
        "C31" => spline::c31(&mut c),
        "C32" => ellipse::c32(&mut c),
        "C35" => conv::c35(&mut c),
        "C36" => builder::c36(&mut c),
        "C15" => small::c15(&mut c),
        "C28" => small::c28(&mut c),
        "C16" => path::c16(&mut c),
        "C25" => vis::c25(&mut c),
        "C26" => vis::c26(&mut c),
        "C27" => path::c27(&mut c),
        "C21" => lex::c21(&mut c),
        "C22" => lex::c22(&mut c),
        "C17" => vecopt::c17(&mut c),
        "C18" => vecopt::c18(&mut c),
        "C19" => vecopt::c19(&mut c),
        "C20" => vecopt::c20(&mut c),
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2)
        }
    }
    c.finish()
}
