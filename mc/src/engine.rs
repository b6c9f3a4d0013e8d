//! The exploration engine: enumerates every case of every space of a property, runs each on the
//! real library, and records what was covered. A case is a list of integers, so that a crash
//! (an abort, a fault, a hang) of the code under test is still attributable and replayable.

use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default, Clone)]
pub struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
pub type Set64 = HashSet<u64, BuildHasherDefault<IdHash>>;

#[inline]
pub fn mix(h: u64, v: u64) -> u64 {
    let mut x = (h.rotate_left(23).wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ v).wrapping_add(0x632B_E59B_D9B4_E019).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^ (x >> 32)
}
pub fn hash_words(seed: u64, ws: &[usize]) -> u64 {
    ws.iter().fold(mix(seed, ws.len() as u64), |h, &w| mix(h, w as u64))
}

#[derive(Debug, Clone)]
pub struct Fail {
    /// Identifies what kind of failure this is; compared with the known-findings file.
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;
pub fn fail<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: "mismatch".into(), msg: msg.into() })
}
pub fn fail_sig<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($fmt:tt)+) => { if !($c) { return $crate::engine::fail(format!($($fmt)+)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($fmt:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return $crate::engine::fail(format!("{}: expected {:?}, got {:?}", format!($($fmt)+), a, b)); }
    }};
}

/// What one worker has covered in one space.
#[derive(Default)]
pub struct St {
    pub states: Set64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: Set64,
    pub schedules: u64,
    pub infeasible: u64,
    pub findings: Vec<(String, String)>,
}
impl St {
    #[inline]
    pub fn state(&mut self, h: u64) -> bool {
        self.states.insert(h)
    }
    #[inline]
    pub fn step(&mut self, n: u64) {
        self.transitions += n
    }
    #[inline]
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < 1 << 16 {
            self.outcomes.insert(mix(1, h));
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
}

pub struct Space {
    pub name: &'static str,
    pub about: &'static str,
    /// Feeds every case of the space to the callback, simplest first; stops if it returns false.
    pub cases: fn(Tier, &mut dyn FnMut(&[u64]) -> bool),
    pub run: fn(&[u64], &mut St) -> Res,
    /// Cases of this space must run one at a time (they own the process: timers, big memory).
    pub serial: bool,
}

// ---------------------------------------------------------------- panics, crashes, hangs

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}
const SLOTS: usize = 64;
const COORDS: usize = 24;
struct Slot {
    space: AtomicUsize,
    n: AtomicUsize,
    c: [AtomicU64; COORDS],
    started: AtomicU64,
    clock: AtomicU64,
}
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU64 = AtomicU64::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const SLOT0: Slot = Slot { space: AtomicUsize::new(0), n: AtomicUsize::new(0), c: [Z; COORDS], started: Z, clock: Z };
static TABLE: [Slot; SLOTS] = [SLOT0; SLOTS];
static SPACE_NAMES: Mutex<Vec<&'static str>> = Mutex::new(Vec::new());
static CRASH_LINE: AtomicBool = AtomicBool::new(false);

/// True if `f` panicked (by unwinding).
pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        std::hint::black_box(f());
    }))
    .is_err()
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
pub fn current_slot() -> usize {
    SLOT.with(|s| s.get())
}
/// Threads a case starts itself report crashes under the slot of the case.
pub fn adopt_slot(s: usize) {
    SLOT.with(|x| x.set(s));
}

pub fn install() {
    // Formatting every expected panic would dominate the cost of checks that provoke millions of
    // them, so only the place and a short text are kept.
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| (l.file(), l.line()));
        LAST_PANIC.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                p.clear();
                p.push_str(&msg);
                if let Some((f, l)) = loc {
                    use std::fmt::Write;
                    let _ = write!(p, " at {f}:{l}");
                }
            }
        });
    }));
    unsafe {
        for sig in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = crash as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
        let lim = libc::rlimit { rlim_cur: 26 << 30, rlim_max: 26 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &nocore);
    }
}

/// How a computation in a process of its own ended.
pub enum End {
    Done(Res),
    /// a panic, or the process gave up
    Refused,
    Died(i32),
}
/// Runs `f` in a child process that can use only a little more memory than this one, for calls that
/// may end in running out of it.
pub fn in_child(f: impl FnOnce() -> Res) -> End {
    unsafe {
        let mut ends = [0; 2];
        assert_eq!(0, libc::pipe(ends.as_mut_ptr()));
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            for sig in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
                libc::signal(sig, libc::SIG_DFL);
            }
            libc::alarm(60);
            libc::close(2);
            let mut pages = 0usize;
            if let Ok(t) = std::fs::read_to_string("/proc/self/statm") {
                pages = t.split(' ').next().and_then(|x| x.parse().ok()).unwrap_or(0);
            }
            let bytes = pages as u64 * 4096 + (1 << 30);
            libc::setrlimit(libc::RLIMIT_AS, &libc::rlimit { rlim_cur: bytes, rlim_max: bytes });
            let text = match catch_unwind(AssertUnwindSafe(f)) {
                Ok(Ok(())) => "0".to_string(),
                Ok(Err(e)) => format!("1{}", e.msg),
                Err(_) => "2".to_string(),
            };
            libc::write(ends[1], text.as_ptr() as *const _, text.len().min(4000));
            libc::_exit(0);
        }
        libc::close(ends[1]);
        let mut got = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let k = libc::read(ends[0], buf.as_mut_ptr() as *mut _, buf.len());
            if k <= 0 {
                break;
            }
            got.extend_from_slice(&buf[..k as usize]);
        }
        libc::close(ends[0]);
        let mut status = 0;
        assert_eq!(pid, libc::waitpid(pid, &mut status, 0));
        match got.first() {
            Some(b'0') => End::Done(Ok(())),
            Some(b'1') => End::Done(fail(String::from_utf8_lossy(&got[1..]))),
            Some(_) => End::Refused,
            None if libc::WIFSIGNALED(status) && libc::WTERMSIG(status) != libc::SIGABRT => End::Died(libc::WTERMSIG(status)),
            None => End::Refused,
        }
    }
}

struct Buf {
    b: [u8; 1024],
    n: usize,
}
impl Buf {
    fn s(&mut self, s: &[u8]) {
        for &c in s {
            if self.n < self.b.len() {
                self.b[self.n] = c;
                self.n += 1;
            }
        }
    }
    fn u(&mut self, mut v: u64) {
        let mut t = [0u8; 20];
        let mut i = 20;
        loop {
            i -= 1;
            t[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        let t2 = t;
        self.s(&t2[i..]);
    }
}
pub fn write_crumb(kind: &[u8], sig: u64, slot: usize) {
    let mut b = Buf { b: [0; 1024], n: 0 };
    b.s(b"\n");
    b.s(kind);
    b.s(b" signal=");
    b.u(sig);
    b.s(b" space=");
    if slot < SLOTS {
        let s = &TABLE[slot];
        b.u(s.space.load(Relaxed) as u64);
        b.s(b" coords=");
        for i in 0..s.n.load(Relaxed).min(COORDS) {
            if i > 0 {
                b.s(b",");
            }
            b.u(s.c[i].load(Relaxed));
        }
    } else {
        b.s(b"none coords=");
    }
    b.s(b"\n");
    unsafe { libc::write(1, b.b.as_ptr() as *const _, b.n) };
}
extern "C" fn crash(sig: i32, _i: *mut libc::siginfo_t, _c: *mut libc::c_void) {
    if CRASH_LINE.swap(true, SeqCst) {
        // another thread is reporting its own and will end the process
        unsafe { libc::sleep(5) };
    } else {
        let slot = SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
        write_crumb(b"CRASH", sig as u64, slot);
        LAST_PANIC.with(|p| {
            if let Ok(p) = p.try_borrow() {
                let s = p.as_bytes();
                unsafe {
                    libc::write(1, b"CRASHMSG ".as_ptr() as *const _, 9);
                    for chunk in s.split(|&c| c == b'\n') {
                        libc::write(1, chunk.as_ptr() as *const _, chunk.len().min(300));
                        libc::write(1, b" ".as_ptr() as *const _, 1);
                    }
                    libc::write(1, b"\n".as_ptr() as *const _, 1);
                }
            }
        });
    }
    unsafe { libc::_exit(3) }
}

fn enter(slot: usize, space: usize, c: &[u64]) {
    let s = &TABLE[slot];
    s.space.store(space, Relaxed);
    assert!(c.len() <= COORDS);
    for (i, v) in c.iter().enumerate() {
        s.c[i].store(*v, Relaxed);
    }
    s.n.store(c.len(), Relaxed);
    s.started.fetch_add(1, Release);
}
fn thread_cpu_ns(clock: u64) -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clock as libc::clockid_t, &mut ts) != 0 {
            return 0;
        }
        ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
    }
}

// ---------------------------------------------------------------- running

pub struct Found {
    pub index: u64,
    pub space: usize,
    pub coords: Vec<u64>,
    pub fail: Fail,
}
#[derive(Default)]
pub struct Report {
    pub spaces: Vec<SpaceReport>,
    pub violation: Option<Found>,
    pub findings: Vec<(String, String)>,
}
#[derive(Default)]
pub struct SpaceReport {
    pub name: String,
    pub about: String,
    pub cases: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: u64,
    pub schedules: u64,
    pub infeasible: u64,
    pub samples: Vec<Vec<u64>>,
    pub wall_s: f64,
}

/// Runs one case, turning an unexpected panic into a failure.
pub fn run_case(sp: &Space, c: &[u64], st: &mut St) -> Res {
    match catch_unwind(AssertUnwindSafe(|| (sp.run)(c, st))) {
        Ok(r) => r,
        Err(_) => fail_sig("panic", format!("unexpected panic: {}", last_panic())),
    }
}

pub fn replay(spaces: &[Space], name: &str, c: &[u64]) -> Res {
    let i = spaces.iter().position(|s| s.name == name).expect("no such space");
    *SPACE_NAMES.lock().unwrap() = spaces.iter().map(|s| s.name).collect();
    SLOT.with(|s| s.set(0));
    enter(0, i, c);
    let mut st = St::default();
    run_case(&spaces[i], c, &mut st)
}

pub fn explore(spaces: &[Space], tier: Tier, known: &[String], only: Option<&str>, hang_s: u64) -> Report {
    *SPACE_NAMES.lock().unwrap() = spaces.iter().map(|s| s.name).collect();
    let ncpu = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(SLOTS - 1);
    let mut rep = Report::default();
    for (si, sp) in spaces.iter().enumerate() {
        if only.is_some_and(|o| o != sp.name) {
            continue;
        }
        let t0 = Instant::now();
        let workers = if sp.serial { 1 } else { ncpu };
        crate::heap::watching();
        let next = AtomicU64::new(0);
        let stop_at = AtomicU64::new(u64::MAX);
        let found: Mutex<Option<Found>> = Mutex::new(None);
        let done = AtomicUsize::new(0);
        let results: Mutex<Vec<(St, u64, Vec<Vec<u64>>)>> = Mutex::new(Vec::new());
        let mut seen = vec![(0u64, 0u64); workers];
        std::thread::scope(|scope| {
            for w in 0..workers {
                let (stop_at, found, done, results, next) = (&stop_at, &found, &done, &results, &next);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, move || {
                        SLOT.with(|s| s.set(w));
                        unsafe {
                            let mut clk: libc::clockid_t = 0;
                            libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk);
                            TABLE[w].clock.store(clk as u32 as i32 as i64 as u64, Relaxed);
                        }
                        let mut st = St::default();
                        let mut cases = 0u64;
                        let mut samples: Vec<Vec<u64>> = Vec::new();
                        let mut idx = 0u64;
                        let mut mine = next.fetch_add(1, SeqCst);
                        (sp.cases)(tier, &mut |c| {
                            let my = idx;
                            idx += 1;
                            if my != mine {
                                return true;
                            }
                            mine = next.fetch_add(1, SeqCst);
                            if my > stop_at.load(Relaxed) {
                                return false;
                            }
                            enter(w, si, c);
                            cases += 1;
                            if cases.is_power_of_two() && samples.len() < 40 {
                                samples.push(c.to_vec());
                            }
                            let before = st.traces;
                            match run_case(sp, c, &mut st) {
                                // a case is one trace unless it counted its own
                                Ok(()) => st.traces += (st.traces == before) as u64,
                                Err(f) if known.contains(&f.sig) => {
                                    st.traces += (st.traces == before) as u64;
                                    if st.findings.len() < 4 {
                                        st.findings.push((f.sig, format!("space={} case={:?}: {}", sp.name, c, f.msg)));
                                    }
                                }
                                Err(f) => {
                                    stop_at.fetch_min(my, SeqCst);
                                    let mut g = found.lock().unwrap();
                                    if g.as_ref().is_none_or(|x| my < x.index) {
                                        *g = Some(Found { index: my, space: si, coords: c.to_vec(), fail: f });
                                    }
                                    return false;
                                }
                            }
                            true
                        });
                        results.lock().unwrap().push((st, cases, samples));
                        done.fetch_add(1, SeqCst);
                    })
                    .unwrap();
            }
            // Watchdog: a single case that burns this much CPU time does not terminate.
            let mut sleep = 1;
            while done.load(SeqCst) < workers {
                std::thread::sleep(Duration::from_millis(sleep));
                sleep = (sleep * 2).min(50);
                for (w, s) in seen.iter_mut().enumerate() {
                    let started = TABLE[w].started.load(Acquire);
                    let cpu = thread_cpu_ns(TABLE[w].clock.load(Relaxed));
                    if s.0 != started {
                        *s = (started, cpu);
                    } else if started > 0 && cpu.saturating_sub(s.1) > hang_s * 1_000_000_000 && TABLE[w].space.load(Relaxed) == si {
                        write_crumb(b"HANG", 0, w);
                        unsafe { libc::_exit(4) }
                    }
                }
            }
        });
        let mut sr = SpaceReport { name: sp.name.into(), about: sp.about.into(), wall_s: t0.elapsed().as_secs_f64(), ..Default::default() };
        let mut states = Set64::default();
        let mut outcomes = Set64::default();
        for (st, cases, samples) in results.into_inner().unwrap() {
            sr.cases += cases;
            sr.transitions += st.transitions;
            sr.traces += st.traces;
            sr.schedules += st.schedules;
            sr.infeasible += st.infeasible;
            if states.is_empty() {
                states = st.states;
            } else {
                states.extend(st.states);
            }
            outcomes.extend(st.outcomes);
            if sr.samples.len() < 3 {
                sr.samples.extend(samples.last().cloned());
            }
            for f in st.findings {
                if !rep.findings.iter().any(|x| x.0 == f.0) {
                    rep.findings.push(f);
                }
            }
        }
        sr.states = states.len() as u64;
        sr.outcomes = outcomes.len() as u64;
        rep.spaces.push(sr);
        if let Some(f) = found.into_inner().unwrap() {
            rep.violation = Some(f);
            return rep;
        }
    }
    rep
}

// ---------------------------------------------------------------- JSON out

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
impl Report {
    pub fn json(&self, spaces: &[Space]) -> String {
        let sp: Vec<String> = self
            .spaces
            .iter()
            .map(|s| {
                let samples: Vec<String> = s.samples.iter().map(|c| format!("{c:?}")).collect();
                format!(
                    "{{\"name\":{},\"about\":{},\"cases\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"outcomes\":{},\"schedules\":{},\"infeasible\":{},\"wall_s\":{:.3},\"samples\":[{}]}}",
                    jstr(&s.name), jstr(&s.about), s.cases, s.states, s.transitions, s.traces, s.outcomes, s.schedules, s.infeasible, s.wall_s, samples.join(",")
                )
            })
            .collect();
        let v = match &self.violation {
            None => "null".to_string(),
            Some(f) => format!(
                "{{\"space\":{},\"coords\":{:?},\"sig\":{},\"msg\":{}}}",
                jstr(spaces[f.space].name), f.coords, jstr(&f.fail.sig), jstr(&f.fail.msg)
            ),
        };
        let fi: Vec<String> = self.findings.iter().map(|(s, m)| format!("{{\"sig\":{},\"msg\":{}}}", jstr(s), jstr(m))).collect();
        format!("{{\"spaces\":[{}],\"violation\":{},\"findings\":[{}]}}\n", sp.join(","), v, fi.join(","))
    }
}
