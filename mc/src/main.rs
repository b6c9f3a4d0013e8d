mod bits;
mod costs;
mod endless;
mod engine;
mod heap;
mod ints;
mod ranks;
mod sched;
mod slices;
mod threads;
mod util;
use engine::*;
#[global_allocator]
static ALLOC: heap::Heap = heap::Heap;

fn spaces(id: &str) -> Vec<Space> {
    match id {
        "C01" => bits::c01(),
        "C02" => bits::c02(),
        "C03" => slices::c03(),
        "C04" => slices::c04(),
        "C05" => slices::c05(),
        "C06" => slices::c06(),
        "C07" => slices::c07(),
        "C08" => slices::c08(),
        "C09" => ints::c09(),
        "C10" => ints::c10(),
        "C11" => ints::c11(),
        "C12" => ints::c12(),
        "C13" => ranks::c13(),
        "C14" => ranks::c14(),
        "C15" => ranks::c15(),
        "C16" => ranks::c16(),
        "C17" => ranks::c17(),
        "C19" => threads::c19(),
        "C20" => threads::c20(),
        "C21" => threads::c21(),
        "C22" => bits::c22(),
        "C24" => costs::c24(),
        "C25" => costs::c25(),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |name: &str| a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).cloned();
    let id = opt("--property").expect("--property");
    heap::mode(match id.as_str() {
        "C17" | "C24" | "C25" => heap::COUNTING,
        "C19" | "C20" | "C21" => heap::LOCKLESS,
        _ => 0,
    });
    install();
    let mut sp = spaces(&id);
    sp.extend(endless::of(&id));
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = if opt("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
            let known: Vec<String> = opt("--known").map(|k| k.split(',').map(|s| s.to_string()).collect()).unwrap_or_default();
            // The longest cases take seconds here (minutes in the thorough tier).
            let rep = explore(&sp, tier, &known, opt("--space").as_deref(), opt("--hang").and_then(|h| h.parse().ok()).unwrap_or(tier.pick(240, 3600)));
            let out = rep.json(&sp);
            match opt("--out") {
                Some(p) => std::fs::write(p, out).unwrap(),
                None => print!("{out}"),
            }
            std::process::exit(if rep.violation.is_some() { 1 } else { 0 });
        }
        Some("spaces") => println!("[{}]", sp.iter().map(|s| jstr(s.name)).collect::<Vec<_>>().join(",")),
        Some("replay") => {
            let c: Vec<u64> = opt("--coords").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            match replay(&sp, &opt("--space").expect("--space"), &c) {
                Ok(()) => println!("REPLAY held"),
                Err(f) => {
                    println!("REPLAY failed [{}] {}", f.sig, f.msg);
                    std::process::exit(1)
                }
            }
        }
        _ => {
            eprintln!("usage: mc check|replay --property ID ...");
            std::process::exit(2)
        }
    }
}
