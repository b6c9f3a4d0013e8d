//! Bounded programs over the library's API, to be run under an interpreter that reports undefined
//! behaviour, and some for a compiled program whose accesses are watched. What the calls return is
//! not judged here, only that they return or panic.
//!   ub list | ub native | ub races PROPERTY | ub run TIER SPACE SHARD SHARDS FROM | ub one SPACE COORDS
mod programs;
use std::cell::Cell;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static OPS: Cell<u64> = const { Cell::new(0) };
    static PANICS: Cell<u64> = const { Cell::new(0) };
}
/// Calls into the library; a panic is an allowed end.
pub fn call<R>(f: impl FnOnce() -> R) -> Option<R> {
    OPS.with(|o| o.set(o.get() + 1));
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(std::hint::black_box(r)),
        Err(_) => {
            PANICS.with(|o| o.set(o.get() + 1));
            None
        }
    }
}
pub fn count(n: u64) {
    OPS.with(|o| o.set(o.get() + n));
}
/// The programs that do judge what calls return end here.
pub fn wrong(what: &str) -> ! {
    println!("WRONG {what}");
    std::process::exit(3)
}
pub struct Space {
    pub name: &'static str,
    pub about: &'static str,
    pub cases: fn(bool, &mut dyn FnMut(&[u64])),
    pub run: fn(&[u64]),
}
fn show(c: &[u64]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let (mut spaces, native) = (programs::spaces(), programs::native::spaces());
    match a[0].as_str() {
        "list" => (),
        "native" => spaces = native,
        "races" => spaces = programs::races::spaces(&a[1]),
        _ => {
            spaces.extend(native);
            spaces.extend(["C19", "C20", "C21"].into_iter().flat_map(programs::races::spaces));
        }
    }
    let mut out = std::io::stdout();
    match a[0].as_str() {
        "list" | "native" | "races" => {
            for s in &spaces {
                println!("{}\t{}", s.name, s.about);
            }
        }
        "run" => {
            let thorough = a[1] == "thorough";
            let (shard, shards, from): (u64, u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
            let s = spaces.iter().find(|s| s.name == a[2]).unwrap();
            let (mut idx, mut done) = (0, 0);
            (s.cases)(thorough, &mut |c| {
                idx += 1;
                if (idx - 1) % shards != shard || idx - 1 < from {
                    return;
                }
                out.write_all(format!("@ {} {}\n", idx - 1, show(c)).as_bytes()).unwrap();
                (s.run)(c);
                done += 1;
            });
            println!("END cases={done} ops={} panics={}", OPS.with(|o| o.get()), PANICS.with(|o| o.get()));
        }
        "one" => {
            let c: Vec<u64> = a[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            (spaces.iter().find(|s| s.name == a[1]).unwrap().run)(&c);
            println!("END cases=1 ops={} panics={}", OPS.with(|o| o.get()), PANICS.with(|o| o.get()));
        }
        _ => panic!("usage"),
    }
}
