//! Bounded programs whose answers are compared with a plain model. They are run on machines of both
//! byte orders: natively, and interpreted for a big-endian target.
//!   order list | order run TIER SHARD SHARDS | order one SPACE COORDS
mod programs;
use std::cell::Cell;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static OPS: Cell<u64> = const { Cell::new(0) };
}
pub fn count(n: u64) {
    OPS.with(|o| o.set(o.get() + n));
}
pub struct Space {
    pub name: &'static str,
    pub about: &'static str,
    pub cases: fn(bool, &mut dyn FnMut(&[u64])),
    pub run: fn(&[u64]),
}
fn show(c: &[u64]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
/// Runs a case; a wrong answer is a panic of the program, a panic of the library is one too.
fn judge(s: &Space, c: &[u64]) -> bool {
    match catch_unwind(AssertUnwindSafe(|| (s.run)(c))) {
        Ok(()) => true,
        Err(e) => {
            let text = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            println!("WRONG {} {}", show(c), text.replace('\n', " "));
            false
        }
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let spaces = programs::spaces();
    let mut out = std::io::stdout();
    match a[0].as_str() {
        "list" => {
            for s in &spaces {
                println!("{}\t{}", s.name, s.about);
            }
        }
        "run" => {
            let thorough = a[1] == "thorough";
            let (shard, shards): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            let mut idx = 0;
            for s in &spaces {
                out.write_all(format!("SPACE {}\n", s.name).as_bytes()).unwrap();
                let (mut done, mut right, before) = (0, true, OPS.with(|o| o.get()));
                (s.cases)(thorough, &mut |c| {
                    idx += 1;
                    if idx % shards != shard || !right {
                        return;
                    }
                    out.write_all(format!("@ {}\n", show(c)).as_bytes()).unwrap();
                    right = judge(s, c);
                    done += 1;
                });
                println!("END cases={done} ops={}", OPS.with(|o| o.get()) - before);
            }
        }
        "one" => {
            let c: Vec<u64> = a[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            judge(spaces.iter().find(|s| s.name == a[1]).unwrap(), &c);
            println!("END cases=1 ops={}", OPS.with(|o| o.get()));
        }
        _ => panic!("usage"),
    }
}
