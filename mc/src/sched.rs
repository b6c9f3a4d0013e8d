//! Runs two operations on two real threads under a chosen schedule, at the granularity of single
//! machine instructions: the thread that may run has the CPU's trap flag set and counts its
//! instructions in the SIGTRAP handler, where it stops when its share is used up.
use crate::engine::*;
use std::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Once};
use std::time::{Duration, Instant};

pub const FREE: u64 = u64::MAX;

const IDLE: u32 = 0;
const RUN: u32 = 1;
const PAUSED: u32 = 2;
const DONE: u32 = 3;
const QUIT: u32 = 4;

struct Agent {
    /// written by the coordinator (RUN, QUIT) and the agent (PAUSED, DONE); both wait on it
    state: AtomicU32,
    /// instructions executed in the current job
    count: AtomicU64,
    limit: AtomicU64,
    job: [AtomicUsize; 2],
    tid: AtomicI32,
    slot: AtomicUsize,
    panicked: AtomicBool,
}
fn futex(a: &AtomicU32, op: i32, val: u32, timeout: Option<Duration>) {
    let ts = timeout.map(|t| libc::timespec { tv_sec: t.as_secs() as i64, tv_nsec: t.subsec_nanos() as i64 });
    unsafe {
        libc::syscall(libc::SYS_futex, a as *const AtomicU32, op | libc::FUTEX_PRIVATE_FLAG, val, ts.as_ref().map_or(std::ptr::null(), |t| t as *const _), 0usize, 0);
    }
}
fn wake(a: &AtomicU32) {
    futex(a, libc::FUTEX_WAKE, i32::MAX as u32, None);
}
impl Agent {
    fn announce(&self, s: u32) {
        self.state.store(s, SeqCst);
        wake(&self.state);
    }
    /// Waits for a state the other side has set; a short spin saves most of the system calls.
    fn wait_while(&self, s: u32) -> u32 {
        for _ in 0..200 {
            let x = self.state.load(SeqCst);
            if x != s {
                return x;
            }
            std::hint::spin_loop();
        }
        loop {
            let x = self.state.load(SeqCst);
            if x != s {
                return x;
            }
            futex(&self.state, libc::FUTEX_WAIT, s, None);
        }
    }
}
thread_local! {
    static AGENT: Cell<*const Agent> = const { Cell::new(std::ptr::null()) };
    /// instructions counted and allowed, for a thread that only measures itself
    static METER: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}
extern "C" fn on_trap(_sig: i32, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let a = AGENT.with(|a| a.get());
    let uc = ctx as *mut libc::ucontext_t;
    if a.is_null() {
        let (c, limit) = METER.with(|m| m.get());
        METER.with(|m| m.set((c + 1, limit)));
        if c + 1 >= limit {
            unsafe { (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100 };
        }
        return;
    }
    let a = unsafe { &*a };
    let c = a.count.load(Relaxed) + 1;
    a.count.store(c, Relaxed);
    if c >= a.limit.load(Relaxed) {
        let errno = unsafe { *libc::__errno_location() };
        a.announce(PAUSED);
        a.wait_while(PAUSED);
        unsafe { *libc::__errno_location() = errno };
        if a.limit.load(Relaxed) == FREE {
            unsafe { (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100 };
        }
    }
}
#[inline(never)]
fn trap_on() {
    unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
}
#[inline(never)]
fn trap_off() {
    unsafe { asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
}
fn agent_main(a: Arc<Agent>) {
    a.tid.store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, SeqCst);
    AGENT.with(|x| x.set(&*a));
    a.announce(DONE);
    loop {
        if a.wait_while(DONE) == QUIT {
            return;
        }
        adopt_slot(a.slot.load(SeqCst));
        let raw = [a.job[0].load(SeqCst), a.job[1].load(SeqCst)];
        let f: &mut dyn FnMut() = unsafe { std::mem::transmute(raw) };
        let step = a.limit.load(SeqCst) != FREE;
        let p = panics(|| {
            if step {
                trap_on();
            }
            f();
            trap_off();
        });
        trap_off();
        a.panicked.store(p, SeqCst);
        a.announce(DONE);
    }
}
pub struct Pair {
    agents: [Arc<Agent>; 2],
}
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Stop {
    /// has executed its share of instructions
    Paused,
    Done,
    /// waits for something the other thread holds
    Blocked,
}
fn catch_traps() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    });
}
/// How many machine instructions a call executes, counted up to `limit`; what is beyond runs freely.
#[inline(never)]
pub fn steps(limit: u64, f: &mut dyn FnMut()) -> u64 {
    catch_traps();
    METER.with(|m| m.set((0, limit)));
    trap_on();
    f();
    trap_off();
    METER.with(|m| m.get()).0
}
impl Pair {
    pub fn new() -> Pair {
        catch_traps();
        let mk = || {
            let a = Arc::new(Agent {
                state: AtomicU32::new(IDLE),
                count: AtomicU64::new(0),
                limit: AtomicU64::new(FREE),
                job: [AtomicUsize::new(0), AtomicUsize::new(0)],
                tid: AtomicI32::new(0),
                slot: AtomicUsize::new(current_slot()),
                panicked: AtomicBool::new(false),
            });
            let b = a.clone();
            std::thread::Builder::new().stack_size(1 << 20).spawn(move || agent_main(b)).unwrap();
            a.wait_while(IDLE);
            a
        };
        Pair { agents: [mk(), mk()] }
    }
    /// Gives an agent a job and lets it run up to `limit` instructions.
    fn start(&self, who: usize, f: &mut dyn FnMut(), limit: u64) -> Stop {
        let a = &self.agents[who];
        let raw: [usize; 2] = unsafe { std::mem::transmute(f) };
        a.job[0].store(raw[0], SeqCst);
        a.job[1].store(raw[1], SeqCst);
        a.count.store(0, SeqCst);
        a.limit.store(limit, SeqCst);
        a.slot.store(current_slot(), SeqCst);
        a.announce(RUN);
        self.await_stop(who)
    }
    fn resume(&self, who: usize, limit: u64) -> Stop {
        let a = &self.agents[who];
        match a.state.load(SeqCst) {
            DONE => Stop::Done,
            PAUSED => {
                a.limit.store(limit, SeqCst);
                a.announce(RUN);
                self.await_stop(who)
            }
            // was blocked before; it may have gone on by now
            _ => {
                a.limit.store(limit, SeqCst);
                self.await_stop(who)
            }
        }
    }
    fn sleeping(&self, who: usize) -> bool {
        let tid = self.agents[who].tid.load(SeqCst);
        let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
        s.rsplit(')').next().is_some_and(|r| r.trim_start().starts_with('S'))
    }
    fn await_stop(&self, who: usize) -> Stop {
        let a = &self.agents[who];
        let mut asleep = 0;
        let begin = Instant::now();
        for i in 0u64.. {
            match a.state.load(SeqCst) {
                PAUSED => return Stop::Paused,
                DONE => return Stop::Done,
                s if i < 300 => {
                    let _ = s;
                    std::hint::spin_loop();
                    continue;
                }
                s => futex(&a.state, libc::FUTEX_WAIT, s, Some(Duration::from_millis(10))),
            }
            if a.state.load(SeqCst) == RUN {
                asleep = if self.sleeping(who) { asleep + 1 } else { 0 };
                if asleep >= 4 || begin.elapsed() > Duration::from_secs(3) && begin.elapsed() > Duration::from_millis(10 * a.count.load(SeqCst).min(3000)) {
                    return Stop::Blocked;
                }
            }
        }
        unreachable!()
    }
    fn counts(&self) -> u64 {
        self.agents[0].count.load(SeqCst) + self.agents[1].count.load(SeqCst)
    }
    fn panicked(&self) -> bool {
        self.agents.iter().any(|a| a.panicked.load(SeqCst))
    }
}
impl Drop for Pair {
    fn drop(&mut self) {
        for a in &self.agents {
            if a.state.load(SeqCst) == DONE {
                a.announce(QUIT);
            }
        }
    }
}
thread_local! {
    static PAIR: std::cell::OnceCell<Pair> = const { std::cell::OnceCell::new() };
}

/// Two operations on some shared world, and what must be true afterwards.
pub trait Duo {
    fn run(&self, who: usize);
    fn verdict(&self) -> Res;
    /// Told before the run whether one thread may interrupt the other at all.
    fn preempted(&self, _yes: bool) {}
    /// What must be true whenever the second thread has finished a run of its operation.
    fn interim(&self) -> Res {
        Ok(())
    }
}

/// One schedule: the first thread runs `at[0]` instructions, then the other `at[1]`, then the
/// first up to `at[2]` in total, and so on; then both finish in turn. Returns how many stops were
/// reached; the one after those was not, because the thread had finished or waits for the other.
fn one<D: Duo>(d: &D, first: usize, at: &[u64], st: &mut St) -> Result<usize, Fail> {
    PAIR.with(|p| {
        let p = p.get_or_init(Pair::new);
        let mut ja = || d.run(0);
        let mut jb = || d.run(1);
        let mut started = [false; 2];
        let mut reached = 0;
        let mut go = |who: usize, limit: u64| -> Stop {
            if started[who] {
                p.resume(who, limit)
            } else {
                started[who] = true;
                let f: &mut dyn FnMut() = if who == 0 { &mut ja } else { &mut jb };
                p.start(who, f, limit)
            }
        };
        let mut blocked = false;
        for (i, &k) in at.iter().enumerate() {
            match go((first + i) % 2, k) {
                Stop::Paused => reached += 1,
                Stop::Done => break,
                Stop::Blocked => {
                    blocked = true;
                    break;
                }
            }
        }
        // finish both; a blocked one may have to wait for the other
        let mut turn = (first + at.len()) % 2;
        let begin = Instant::now();
        let mut done = [false; 2];
        while !(done[0] && done[1]) {
            match go(turn, FREE) {
                Stop::Done => done[turn] = true,
                Stop::Paused => {}
                Stop::Blocked => blocked = true,
            }
            if begin.elapsed() > Duration::from_secs(40) {
                // both threads are lost and so is the world they use
                write_crumb(b"HANG", 0, current_slot());
                unsafe { libc::_exit(4) }
            }
            turn = 1 - turn;
            if done[turn] {
                turn = 1 - turn;
            }
        }
        if blocked {
            st.infeasible += 1;
        }
        st.schedules += 1;
        st.step(p.counts());
        if p.panicked() {
            return fail("a thread panicked");
        }
        Ok(reached)
    })
}

/// All schedules with at most `bound` preemptions, started by either thread. Of the schedules with
/// two and more, only those whose first stop is `part.0` modulo `part.1`.
pub fn interleave<D: Duo>(mk: &mut dyn FnMut() -> D, bound: usize, part: (u64, u64), tag: u64, ctx: &dyn Fn() -> String, st: &mut St) -> Res {
    for first in 0..2 {
        for depth in if part.0 == 0 { 0 } else { 2 }..=bound {
            let mut at = vec![0u64; depth];
            // Counts up the stops like an odometer, from the inside; a stop that is not reached ends
            // its digit. Returns how many stops before this digit were reached by the last schedule.
            fn digit<D: Duo>(i: usize, at: &mut Vec<u64>, part: (u64, u64), first: usize, mk: &mut dyn FnMut() -> D, tag: u64, ctx: &dyn Fn() -> String, st: &mut St) -> Result<usize, Fail> {
                if i == at.len() {
                    let d = mk();
                    d.preempted(!at.is_empty());
                    let r = one(&d, first, at, st).and_then(|n| d.verdict().map(|_| n));
                    st.state(at.iter().fold(mix(tag, first as u64), |h, &k| mix(h, k)));
                    return r.map_err(|f| Fail { sig: f.sig, msg: format!("{}: {} [thread {} first, stops after {at:?} instructions]", ctx(), f.msg, first + 1) });
                }
                let (begin, step) = if i == 0 && at.len() >= 2 { (1 + part.0, part.1) } else { (1, 1) };
                at[i] = if i >= 2 { at[i - 2] + 1 } else { begin };
                loop {
                    let n = digit(i + 1, at, part, first, mk, tag, ctx, st)?;
                    if n <= i {
                        return Ok(n);
                    }
                    at[i] += step;
                }
            }
            digit(0, &mut at, part, first, mk, tag, ctx, st)?;
        }
    }
    st.traces += 1;
    Ok(())
}

/// The first thread stops after every single instruction, and the second runs its whole operation at
/// each of those stops.
pub fn at_every_step<D: Duo>(d: &D, tag: u64, ctx: &dyn Fn() -> String, st: &mut St) -> Res {
    PAIR.with(|p| {
        let p = p.get_or_init(Pair::new);
        let mut ja = || d.run(0);
        let mut jb = || d.run(1);
        let mut k = 1;
        let mut a = p.start(0, &mut ja, k);
        // the second thread waits for something the first one holds
        let mut waiting = false;
        let mut r = Ok(());
        while a == Stop::Paused {
            let b = match waiting {
                true if p.agents[1].state.load(SeqCst) == RUN => Stop::Blocked,
                true => Stop::Done,
                false => p.start(1, &mut jb, FREE),
            };
            waiting = b == Stop::Blocked;
            if waiting {
                st.infeasible += 1;
            } else {
                st.schedules += 1;
                st.state(mix(tag, k));
                r = if p.panicked() { fail("a thread panicked") } else { d.interim() };
                if r.is_err() {
                    break;
                }
            }
            k += 1;
            a = p.resume(0, k);
        }
        let begin = Instant::now();
        while p.agents.iter().any(|a| a.state.load(SeqCst) != DONE) {
            for who in 0..2 {
                p.resume(who, FREE);
            }
            if begin.elapsed() > Duration::from_secs(40) {
                write_crumb(b"HANG", 0, current_slot());
                unsafe { libc::_exit(4) }
            }
        }
        st.step(k);
        st.traces += 1;
        if r.is_ok() && !p.panicked() {
            p.start(1, &mut jb, FREE);
        }
        let r = r.and_then(|_| if p.panicked() { fail("a thread panicked") } else { d.verdict() });
        r.map_err(|f| Fail { sig: f.sig, msg: format!("{}: {} [second thread after each instruction of the first, up to {k}]", ctx(), f.msg) })
    })
}
