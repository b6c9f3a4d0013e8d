//! The explorer's allocator: the system's, with a count of the bytes in use for the property about
//! memory, or, for the properties about threads, one without locks. A thread that the scheduler has
//! stopped inside the system's allocator would keep everybody else out of it.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ptr::null_mut;
use std::sync::atomic::{AtomicIsize, AtomicU8, AtomicUsize, Ordering::*};

/// Heap bytes in use, in COUNTING mode.
pub static LIVE: AtomicIsize = AtomicIsize::new(0);
/// Bytes in blocks that had to be made larger, in COUNTING mode: what growing had to move.
pub static MOVED: AtomicUsize = AtomicUsize::new(0);
static MODE: AtomicU8 = AtomicU8::new(0);
pub const COUNTING: u8 = 1;
pub const LOCKLESS: u8 = 2;

const REGION: usize = 8 << 30;
static BASE: AtomicUsize = AtomicUsize::new(usize::MAX);
static USED: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    /// released blocks of each size, for this thread to use again
    static FREE: [Cell<*mut u8>; 40] = const { [const { Cell::new(null_mut()) }; 40] };
    /// the thread that only watches the others; what it needs is not counted
    static WATCHING: Cell<bool> = const { Cell::new(false) };
}
pub fn watching() {
    WATCHING.set(true);
}
fn count(bytes: isize) {
    if !WATCHING.get() {
        LIVE.fetch_add(bytes, Relaxed);
    }
}
pub fn mode(m: u8) {
    if m == LOCKLESS {
        let p = unsafe { libc::mmap(null_mut(), REGION, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
        assert!(p != libc::MAP_FAILED);
        BASE.store((p as usize).next_multiple_of(4096), SeqCst);
    }
    MODE.store(m, SeqCst);
}
fn class(l: &Layout) -> u32 {
    l.size().max(l.align()).max(16).next_power_of_two().trailing_zeros()
}
fn local(l: &Layout) -> *mut u8 {
    let c = class(l);
    let p = FREE.with(|f| {
        let p = f[c as usize].get();
        if !p.is_null() {
            f[c as usize].set(unsafe { *(p as *mut *mut u8) });
        }
        p
    });
    if !p.is_null() {
        return p;
    }
    let size = 1usize << c;
    let align = size.min(4096);
    let mut u = USED.load(Relaxed);
    loop {
        let at = u.next_multiple_of(align);
        if at + size > REGION - 4096 {
            return null_mut();
        }
        match USED.compare_exchange_weak(u, at + size, SeqCst, Relaxed) {
            Ok(_) => return (BASE.load(Relaxed) + at) as *mut u8,
            Err(x) => u = x,
        }
    }
}
pub struct Heap;
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        match MODE.load(Relaxed) {
            COUNTING => {
                count(l.size() as isize);
                System.alloc(l)
            }
            LOCKLESS => local(&l),
            _ => System.alloc(l),
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        match MODE.load(Relaxed) {
            COUNTING => {
                count(l.size() as isize);
                System.alloc_zeroed(l)
            }
            LOCKLESS => {
                let p = local(&l);
                if !p.is_null() {
                    std::ptr::write_bytes(p, 0, l.size());
                }
                p
            }
            _ => System.alloc_zeroed(l),
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let m = MODE.load(Relaxed);
        if m == LOCKLESS && (p as usize).wrapping_sub(BASE.load(Relaxed)) < REGION {
            FREE.with(|f| {
                let c = &f[class(&l) as usize];
                *(p as *mut *mut u8) = c.get();
                c.set(p);
            });
            return;
        }
        if m == COUNTING {
            count(-(l.size() as isize));
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let m = MODE.load(Relaxed);
        if m == LOCKLESS {
            let q = local(&Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
                self.dealloc(p, l);
            }
            return q;
        }
        if m == COUNTING {
            count(n as isize - l.size() as isize);
            MOVED.fetch_add(l.size(), Relaxed);
        }
        System.realloc(p, l, n)
    }
}
