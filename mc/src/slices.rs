//! C03 to C08: slices, splits, iterators, equality, bit access to integers and words.
use crate::bits::Guarded;
use crate::engine::*;
use crate::util::*;
use crate::{ensure, ensure_eq};
use std::ops::Bound::{self, *};
use std::rc::Rc;
use succinct_neo::bit_vec::slice::Iter;
use succinct_neo::bit_vec::{BitGet, BitModify, BitSlice, BitVec};

type Feed<'a> = &'a mut dyn FnMut(&[u64]) -> bool;
pub type Rng = (Bound<usize>, Bound<usize>);

pub trait BA: BitGet + BitModify {}
impl<T: BitGet + BitModify> BA for T {}

/// A slice of any type, for reading.
pub trait Reads {
    fn n(&self) -> usize;
    fn empty(&self) -> bool;
    fn rd(&self, kind: u64, i: usize) -> bool;
    fn all(&self) -> Vec<bool>;
}
pub const SREADERS: u64 = 4;
impl<B: BitGet> Reads for BitSlice<B> {
    fn n(&self) -> usize {
        self.len()
    }
    fn empty(&self) -> bool {
        self.is_empty()
    }
    fn rd(&self, kind: u64, i: usize) -> bool {
        match kind {
            0 => self.get(i),
            1 => self.get_bit(i),
            2 => unsafe { self.get_unchecked(i) },
            _ => unsafe { self.get_bit_unchecked(i) },
        }
    }
    fn all(&self) -> Vec<bool> {
        self.iter().collect()
    }
}
/// A slice of any type, for writing.
pub trait Writes: Reads {
    fn wr(&mut self, kind: u64, op: u64, i: usize);
}
impl<B: BA> Writes for BitSlice<B> {
    fn wr(&mut self, kind: u64, op: u64, i: usize) {
        match (kind % 4, op) {
            (0, 2) => self.flip(i),
            (1, 2) => self.flip_bit(i),
            (2, 2) => unsafe { self.flip_unchecked(i) },
            (_, 2) => unsafe { self.flip_bit_unchecked(i) },
            (0, v) => self.set(i, v == 1),
            (1, v) => self.set_bit(i, v == 1),
            (2, v) => unsafe { self.set_unchecked(i, v == 1) },
            (_, v) => unsafe { self.set_bit_unchecked(i, v == 1) },
        }
    }
}

/// All ways to write the in-range range a..b of something of length n.
pub fn forms(a: usize, b: usize, n: usize) -> Vec<Rng> {
    let mut v = vec![(Included(a), Excluded(b))];
    if b >= 1 {
        v.push((Included(a), Included(b - 1)));
    }
    if b == n {
        v.push((Included(a), Unbounded));
    }
    if a == 0 {
        v.push((Unbounded, Excluded(b)));
        if b >= 1 {
            v.push((Unbounded, Included(b - 1)));
        }
        if b == n {
            v.push((Unbounded, Unbounded));
        }
    }
    if a >= 1 {
        v.push((Excluded(a - 1), Excluded(b)));
        v.push((Excluded(a - 1), Included(b - 1)));
        if b == n {
            v.push((Excluded(a - 1), Unbounded));
        }
    }
    v
}

#[derive(Clone, Copy, Debug)]
pub struct Level {
    r: Rng,
    unchecked: bool,
}
macro_rules! mut_chain {
    ($name:ident, $next:ident) => {
        fn $name<B: BA>(s: &mut BitSlice<B>, ls: &[Level], f: &mut dyn FnMut(&mut dyn Writes) -> Res) -> Res {
            match ls.first() {
                None => f(s),
                Some(l) if l.unchecked => $next(&mut unsafe { s.slice_unchecked_mut(l.r) }, &ls[1..], f),
                Some(l) => $next(&mut s.slice_mut(l.r), &ls[1..], f),
            }
        }
    };
}
fn m0<B: BA>(s: &mut BitSlice<B>, _: &[Level], f: &mut dyn FnMut(&mut dyn Writes) -> Res) -> Res {
    f(s)
}
mut_chain!(m1, m0);
mut_chain!(m2, m1);
mut_chain!(m3, m2);
macro_rules! shared_chain {
    ($name:ident, $next:ident) => {
        fn $name<B: BitGet>(s: &BitSlice<B>, ls: &[Level], f: &mut dyn FnMut(&dyn Reads) -> Res) -> Res {
            match ls.first() {
                None => f(s),
                Some(l) if l.unchecked => $next(&unsafe { s.slice_unchecked(l.r) }, &ls[1..], f),
                Some(l) => $next(&s.slice(l.r), &ls[1..], f),
            }
        }
    };
}
fn s0<B: BitGet>(s: &BitSlice<B>, _: &[Level], f: &mut dyn FnMut(&dyn Reads) -> Res) -> Res {
    f(s)
}
shared_chain!(s1, s0);
shared_chain!(s2, s1);
shared_chain!(s3, s2);

/// Contents that together give every position its own code, and their complements.
fn codes(n: usize) -> Vec<Vec<bool>> {
    let mut v = vec![];
    let mut k = 0;
    while k == 0 || n > 1 << k {
        v.push(model(n, |i| i >> k & 1 == 1));
        v.push(model(n, |i| i >> k & 1 == 0));
        k += 1;
    }
    v
}
/// The slice reached through `ls` from a vector of n bits must be the window lo..hi.
fn check_chain(n: usize, ls: &[Level], lo: usize, hi: usize, st: &mut St) -> Res {
    let len = hi - lo;
    let ctx = || format!("vector of {n} bits, chain {ls:?} (window {lo}..{hi})");
    for m in codes(n) {
        let mut bv = make_bits(&m);
        let look = |s: &dyn Reads| -> Res {
            ensure_eq!(len, s.n(), "{}: length", ctx());
            ensure_eq!(len == 0, s.empty(), "{}: is_empty", ctx());
            for i in 0..len {
                for k in 0..SREADERS {
                    ensure_eq!(m[lo + i], s.rd(k, i), "{}: bit {i}, reader {k}", ctx());
                }
            }
            ensure!(s.all() == m[lo..hi], "{}: iteration", ctx());
            Ok(())
        };
        st.step(2 * (1 + len as u64 * SREADERS));
        s3(&bv, ls, &mut |s| look(s))?;
        m3(&mut bv, ls, &mut |s| {
            let r: &dyn Writes = s;
            ensure_eq!(len, r.n(), "{}: length of mutable slice", ctx());
            for i in 0..len {
                for k in 0..SREADERS {
                    ensure_eq!(m[lo + i], r.rd(k, i), "{}: bit {i} of mutable slice, reader {k}", ctx());
                }
            }
            Ok(())
        })?;
        // a shared slice of a mutable slice and back
        if ls.len() >= 2 {
            m1(&mut bv, &ls[..1], &mut |_| Ok(()))?;
            let mut top = bv.slice_mut(ls[0].r);
            s2(&top, &ls[1..], &mut |s| look(s))?;
            let _ = &mut top;
        }
    }
    // writes
    for bg in 0..2u64 {
        let m = model(n, |_| bg == 1);
        let mut bv = make_bits(&m);
        let clean = bv.raw().to_vec();
        for i in 0..len {
            for op in 0..3 {
                let kind = (i as u64 + op + bg) % 4;
                m3(&mut bv, ls, &mut |s| {
                    s.wr(kind, op, i);
                    let e = if op == 2 { bg == 0 } else { op == 1 };
                    ensure_eq!(e, s.rd(kind, i), "{}: bit {i} read back after op {op}", ctx());
                    Ok(())
                })?;
                st.step(1);
                let mut want = clean.clone();
                let (w, b) = ((lo + i) / 64, (lo + i) % 64);
                match op {
                    0 => want[w] &= !(1 << b),
                    1 => want[w] |= 1 << b,
                    _ => want[w] ^= 1 << b,
                }
                let got: Vec<bool> = (0..n).map(|j| bv.get(j)).collect();
                for j in 0..n {
                    ensure_eq!(want[j / 64] >> (j % 64) & 1 == 1, got[j], "{}: parent bit {j} after op {op} at slice bit {i}", ctx());
                }
                bv.set(lo + i, bg == 1);
            }
        }
    }
    st.state(hash_words(n as u64, &[lo, hi, ls.len()]));
    Ok(())
}
fn methods(k: u64, depth: usize) -> impl Iterator<Item = Vec<bool>> {
    (0..k).map(move |x| (0..depth).map(|d| x >> d & 1 == 1).collect())
}

fn c03_one_cases(t: Tier, f: Feed) {
    let mut ns: Vec<usize> = (0..=24).collect();
    ns.extend([63, 64, 65, 66]);
    ns.extend(t.pick(vec![129], vec![127, 128, 129, 130, 193]));
    for n in ns {
        for a in 0..=n {
            for b in a..=n {
                if n > 70 && t == Tier::Quick && !(a % 64 <= 1 || a % 64 == 63 || b % 64 <= 1 || b == n || b == a) {
                    continue;
                }
                if !f(&[n as u64, a as u64, b as u64]) {
                    return;
                }
            }
        }
    }
}
fn c03_one(c: &[u64], st: &mut St) -> Res {
    let (n, a, b) = (c[0] as usize, c[1] as usize, c[2] as usize);
    for r in forms(a, b, n) {
        for u in [false, true] {
            check_chain(n, &[Level { r, unchecked: u }], a, b, st)?;
        }
    }
    // the range literals people write
    let mut bv = make(n, |i| i % 3 == 1);
    let m = model(n, |i| i % 3 == 1);
    macro_rules! lit {
        ($r:expr, $what:literal) => {{
            ensure!(bv.slice($r).all() == m[a..b], "{} {a} {b} of {n}: slice", $what);
            ensure!(bv.slice_mut($r).all() == m[a..b], "{} {a} {b} of {n}: slice_mut", $what);
            ensure!(unsafe { bv.slice_unchecked($r) }.all() == m[a..b], "{} {a} {b} of {n}: slice_unchecked", $what);
            ensure!(unsafe { bv.slice_unchecked_mut($r) }.all() == m[a..b], "{} {a} {b} of {n}: slice_unchecked_mut", $what);
            st.step(4);
        }};
    }
    lit!(a..b, "a..b");
    if b > a {
        lit!(a..=b - 1, "a..=b");
    }
    if b == n {
        lit!(a.., "a..");
    }
    if a == 0 {
        lit!(..b, "..b");
        if b > 0 {
            lit!(..=b - 1, "..=b");
        }
        if b == n {
            lit!(.., "..");
        }
    }
    Ok(())
}
fn c03_two_cases(t: Tier, f: Feed) {
    for n in 0..=t.pick(8u64, 10) {
        for a in 0..=n {
            for b in a..=n {
                if !f(&[n, a, b, 0]) {
                    return;
                }
            }
        }
    }
    for n in [66u64, 130] {
        let ps: Vec<u64> = [0, 1, 2, 62, 63, 64, 65, 66, 127, 128, 129, 130].into_iter().filter(|&x| x <= n).collect();
        for &a in &ps {
            for &b in &ps {
                if a <= b && !f(&[n, a, b, 1]) {
                    return;
                }
            }
        }
    }
}
/// Every slice of every slice.
fn c03_two(c: &[u64], st: &mut St) -> Res {
    let (n, a, b) = (c[0] as usize, c[1] as usize, c[2] as usize);
    let len = b - a;
    let inner: Vec<(usize, usize)> = if c[3] == 0 {
        (0..=len).flat_map(|x| (x..=len).map(move |y| (x, y))).collect()
    } else {
        let mut v = vec![];
        for x in [0, 1, 2, 3, 62, 63, 64, 65] {
            for y in [len, len.wrapping_sub(1), x + 1, x + 2, 63, 64] {
                if x <= y && y <= len {
                    v.push((x, y));
                }
            }
        }
        v.sort_unstable();
        v.dedup();
        v
    };
    for (x, y) in inner {
        if c[3] == 0 {
            for r0 in forms(a, b, n) {
                for r1 in forms(x, y, len) {
                    for u in methods(4, 2) {
                        check_chain(n, &[Level { r: r0, unchecked: u[0] }, Level { r: r1, unchecked: u[1] }], a + x, a + y, st)?;
                    }
                }
            }
        } else {
            let f0 = forms(a, b, n);
            let f1 = forms(x, y, len);
            let r0 = f0[(x + y) % f0.len()];
            let r1 = f1[(a + b + x) % f1.len()];
            for u in methods(4, 2) {
                check_chain(n, &[Level { r: r0, unchecked: u[0] }, Level { r: r1, unchecked: u[1] }], a + x, a + y, st)?;
            }
        }
    }
    Ok(())
}
fn c03_three_cases(t: Tier, f: Feed) {
    for n in 0..=t.pick(7u64, 9) {
        for a in 0..=n {
            for b in a..=n {
                if !f(&[n, a, b]) {
                    return;
                }
            }
        }
    }
}
fn c03_three(c: &[u64], st: &mut St) -> Res {
    let (n, a, b) = (c[0] as usize, c[1] as usize, c[2] as usize);
    let l1 = b - a;
    for x in 0..=l1 {
        for y in x..=l1 {
            let l2 = y - x;
            for p in 0..=l2 {
                for q in p..=l2 {
                    for u in methods(8, 3) {
                        let mk = |lo: usize, hi: usize, n: usize, w: usize| {
                            let f = forms(lo, hi, n);
                            f[w % f.len()]
                        };
                        let w = a + x + p;
                        let ls = [
                            Level { r: mk(a, b, n, w), unchecked: u[0] },
                            Level { r: mk(x, y, l1, w + 1), unchecked: u[1] },
                            Level { r: mk(p, q, l2, w + 2), unchecked: u[2] },
                        ];
                        check_chain(n, &ls, a + x + p, a + x + q, st)?;
                    }
                }
            }
        }
    }
    Ok(())
}
fn c03_direct_cases(_t: Tier, f: Feed) {
    for k in 0..8 {
        for s in 0..=66u64 {
            if !f(&[k, s]) {
                return;
            }
        }
    }
}
/// Slices constructed directly over every kind of storage, and slices of those.
fn c03_direct(c: &[u64], st: &mut St) -> Res {
    fn windows<B: BA + Clone>(name: &str, zero: &B, bits: usize, s: usize, st: &mut St) -> Res {
        for e in s..=bits {
            let len = e - s;
            for i in 0..len {
                // one-hot through the direct slice
                let mut d = BitSlice::new(zero.clone(), s, e);
                ensure_eq!(len, d.len(), "{name} window {s}..{e}: length");
                d.wr(i as u64, 1, i);
                st.step(1);
                let back = d.backing();
                for j in 0..bits {
                    ensure_eq!(j == s + i, back.get_bit(j), "{name} window {s}..{e}: storage bit {j} after writing slice bit {i}");
                }
                // and read through every sub-window of it that ends or starts at i
                for (lo, hi) in [(i, len), (0, i + 1), (i, i + 1), (i / 2, len)] {
                    let sub = d.slice(lo..hi);
                    ensure_eq!(hi - lo, sub.len(), "{name} window {s}..{e} sub {lo}..{hi}: length");
                    for j in 0..sub.len() {
                        ensure_eq!(lo + j == i, sub.get(j), "{name} window {s}..{e} sub {lo}..{hi}: bit {j}");
                    }
                    let nested = BitSlice::new(&d, lo, hi);
                    for j in 0..nested.len() {
                        ensure_eq!(lo + j == i, nested.get_bit(j), "{name} window {s}..{e} nested {lo}..{hi}: bit {j}");
                    }
                }
                d.wr(i as u64 + 1, 2, i);
                ensure!(d.all().iter().all(|x| !x), "{name} window {s}..{e}: flip back");
            }
            st.state(hash_words(7, &[bits, s, e, name.len()]));
        }
        Ok(())
    }
    let s = c[1] as usize;
    match c[0] {
        0 if s <= 8 => windows("u8", &0u8, 8, s, st),
        1 if s <= 16 => windows("u16", &0u16, 16, s, st),
        2 if s <= 32 => windows("u32", &0u32, 32, s, st),
        3 if s <= 64 => windows("u64", &0u64, 64, s, st),
        4 if s <= 64 => windows("usize", &0usize, 64, s, st),
        5 => windows("boxed words", &vec![0usize; 2].into_boxed_slice(), 128, s, st),
        6 if s <= 64 => windows("boxed u64", &Box::new(0u64), 64, s, st),
        7 => {
            // harness-owned storage: only bits of the window may be touched at all
            let n = 20;
            if s > n {
                return Ok(());
            }
            for e in s..=n {
                for lo in 0..=e - s {
                    for hi in lo..=e - s {
                        let mut d = BitSlice::new(Guarded::new(vec![false; n], s + lo, s + hi), s, e);
                        {
                            let mut sub = d.slice_mut(lo..hi);
                            for i in 0..hi - lo {
                                for k in 0..4 {
                                    sub.wr(k, 1, i);
                                    ensure!(sub.rd(k, i), "guarded {s}..{e} sub {lo}..{hi}: bit {i}");
                                    sub.wr(k, 2, i);
                                    ensure!(!sub.rd(k, i), "guarded {s}..{e} sub {lo}..{hi}: bit {i} flipped");
                                    sub.wr(k, 2, i);
                                    sub.wr(k, 0, i);
                                    st.step(6);
                                }
                            }
                            ensure_eq!(hi - lo, sub.all().len(), "guarded iteration");
                            ensure_eq!(hi - lo, sub.into_iter().count(), "guarded consuming iteration");
                        }
                        ensure_eq!(0, d.backing().bad.get(), "guarded {s}..{e} sub {lo}..{hi}: accesses outside the window");
                        st.state(hash_words(8, &[s, e, lo, hi]));
                    }
                }
            }
            Ok(())
        }
        _ => Ok(()),
    }
}
fn c03_big_cases(t: Tier, f: Feed) {
    for n in t.pick(vec![(1u64 << 16) + 70, (1 << 32) + 200, (1 << 33) + 1], vec![(1 << 16) + 70, (1 << 31) + 5, (1 << 32) + 200, (1 << 33) + 1, (1 << 34) + 3]) {
        if !f(&[n]) {
            return;
        }
    }
}
fn c03_big(c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    let mut bv = BitVec::new(n);
    let probes = crate::bits::big_probes(n);
    let starts: Vec<usize> = probes.iter().copied().filter(|p| p + 4 < n).collect();
    for &s in &starts {
        for e in [n, n - 1, s + 3, n - (n - s) / 2] {
            for &p in probes.iter().filter(|&&p| p >= s && p < e).step_by(3) {
                {
                    let mut sl = bv.slice_mut(s..e);
                    ensure_eq!(e - s, sl.len(), "length of {s}..{e} of {n}");
                    sl.wr((p % 4) as u64, 1, p - s);
                    ensure!(sl.get(p - s), "bit {} of slice {s}..{e} of {n} after setting it", p - s);
                }
                st.step(1);
                for &q in &probes {
                    ensure_eq!(q == p, bv.get(q), "bit {q} of {n} after setting bit {} of slice {s}..{e}", p - s);
                }
                let sh = bv.slice(s..e);
                ensure!(sh.slice(p - s..).get(0), "nested slice at {p} of {n}");
                bv.set(p, false);
            }
        }
        st.state(mix(n as u64, s as u64));
    }
    Ok(())
}
pub fn c03() -> Vec<Space> {
    vec![
        Space { name: "windows", about: "every window of every listed length in every range form, checked/unchecked, shared/mutable; position codes for reads, every write", cases: c03_one_cases, run: c03_one, serial: false },
        Space { name: "nested2", about: "every slice of every slice, all range forms and ways of slicing on both levels", cases: c03_two_cases, run: c03_two, serial: false },
        Space { name: "nested3", about: "every slice three levels deep", cases: c03_three_cases, run: c03_three, serial: false },
        Space { name: "direct", about: "directly constructed slices over integers, words, boxes and guarded storage, with sub-slices", cases: c03_direct_cases, run: c03_direct, serial: false },
        Space { name: "long", about: "windows starting and ending beyond 2^16, 2^32 and 2^33", cases: c03_big_cases, run: c03_big, serial: false },
    ]
}

// ------------------------------------------------------------------ C04

const NSPECIAL: u64 = 7;
fn special(k: u64) -> usize {
    [1 << 32, (1 << 32) - 1, 1 << 63, (1 << 63) - 1, usize::MAX - 63, usize::MAX - 1, usize::MAX][k as usize]
}
fn value(n: u64, k: u64) -> usize {
    if k < n + 4 {
        k as usize
    } else {
        special(k - n - 4)
    }
}
pub fn bound(kind: u64, v: usize) -> Bound<usize> {
    match kind {
        0 => Included(v),
        1 => Excluded(v),
        _ => Unbounded,
    }
}
pub fn normal(r: Rng, n: usize) -> (u128, u128) {
    let s = match r.0 {
        Included(v) => v as u128,
        Excluded(v) => v as u128 + 1,
        Unbounded => 0,
    };
    let e = match r.1 {
        Included(v) => v as u128 + 1,
        Excluded(v) => v as u128,
        Unbounded => n as u128,
    };
    (s, e)
}
fn c04_cases(t: Tier, f: Feed) {
    for off in [0u64, 1, 63] {
        for n in t.pick::<Vec<u64>>((0..=20).chain([63, 64, 65, 127, 128, 129]).collect(), (0..=40).chain([63, 64, 65, 127, 128, 129, 191, 192, 193, 512]).collect()) {
            for sk in 0..3 {
                for sv in 0..n + 4 + NSPECIAL {
                    if !f(&[off, n, sk, sv]) {
                        return;
                    }
                    if sk == 2 {
                        break;
                    }
                }
            }
        }
    }
}
fn c04_run(c: &[u64], st: &mut St) -> Res {
    let (off, n) = (c[0] as usize, c[1] as usize);
    let total = off + n + 70;
    let m = model(total, |i| i % 3 == 0);
    let mut bv = make_bits(&m);
    let before = bv.raw().to_vec();
    let mut own = make(n, |i| (i + off) % 3 == 0);
    let own_before = own.raw().to_vec();
    for ek in 0..3 {
        for ev in 0..c[1] + 4 + NSPECIAL {
            let r: Rng = (bound(c[2], value(c[1], c[3])), bound(ek, value(c[1], ev)));
            let (s, e) = normal(r, n);
            let valid = s <= n as u128 && e <= n as u128 && s <= e;
            st.step(4);
            st.outcome(valid as u64);
            st.state(hash_words(9, &[off, n, c[2] as usize, c[3] as usize, ek as usize, ev as usize]));
            macro_rules! one {
                ($what:literal, $call:expr) => {{
                    let got = std::cell::Cell::new(usize::MAX);
                    let p = panics(|| got.set($call.len()));
                    if valid {
                        ensure!(!p, "{} {r:?} of {n} bits (offset {off}) panicked although it is in range", $what);
                        ensure_eq!((e - s) as usize, got.get(), "{} {r:?} of {n} bits: length", $what);
                    } else {
                        ensure!(p, "{} {r:?} of {n} bits (offset {off}) gave a slice of length {} instead of panicking", $what, got.get());
                    }
                }};
            }
            one!("slice of a slice", bv.slice(off..off + n).slice(r));
            one!("slice_mut of a slice", bv.slice_mut(off..off + n).slice_mut(r));
            one!("slice_mut of a shared slice", bv.slice(off..off + n).slice_mut(r));
            one!("slice of a mutable slice", bv.slice_mut(off..off + n).slice(r));
            if off == 0 {
                one!("slice of a vector", own.slice(r));
                one!("slice_mut of a vector", own.slice_mut(r));
            }
            // the same bounds as literals
            if let (Included(a), Excluded(b)) = r {
                one!("literal a..b", bv.slice(off..off + n).slice(a..b));
                one!("literal mutable a..b", bv.slice_mut(off..off + n).slice_mut(a..b));
            }
            if let (Included(a), Included(b)) = r {
                one!("literal a..=b", bv.slice(off..off + n).slice(a..=b));
                one!("literal mutable a..=b", bv.slice_mut(off..off + n).slice_mut(a..=b));
            }
            if let (Unbounded, Included(b)) = r {
                one!("literal ..=b", bv.slice(off..off + n).slice(..=b));
            }
            if let (Included(a), Unbounded) = r {
                one!("literal a..", bv.slice(off..off + n).slice(a..));
            }
            ensure!(bv.raw() == before && own.raw() == own_before, "contents changed by slicing with {r:?}");
            if ek == 2 {
                break;
            }
        }
    }
    Ok(())
}
fn c04_new_cases(t: Tier, f: Feed) {
    let vals = c04_vals(t);
    for i in 0..vals.len() as u64 {
        if !f(&[i, (t == Tier::Thorough) as u64]) {
            return;
        }
    }
}
fn c04_vals(t: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (0..t.pick(300, 600)).collect();
    v.extend([4095, 4096, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 63, usize::MAX - 1, usize::MAX]);
    v
}
fn c04_new(c: &[u64], st: &mut St) -> Res {
    let vals = c04_vals(if c[1] == 1 { Tier::Thorough } else { Tier::Quick });
    let s = vals[c[0] as usize];
    let bv = BitVec::new(64);
    for &e in &vals {
        st.step(2);
        st.state(hash_words(10, &[s, e]));
        st.outcome((s > e) as u64);
        if s > e {
            ensure!(panics(|| BitSlice::new(&*bv, s, e).len()), "BitSlice::new with bounds {s}..{e} over a vector did not panic");
            ensure!(panics(|| BitSlice::new(0u64, s, e).len()), "BitSlice::new with bounds {s}..{e} over an integer did not panic");
        } else if e <= 64 {
            ensure_eq!(e - s, BitSlice::new(&*bv, s, e).len(), "length of BitSlice::new {s}..{e}");
        }
    }
    Ok(())
}
fn c04_long_cases(t: Tier, f: Feed) {
    for n in t.pick(vec![1u64 << 12, (1 << 16) + 5, (1 << 24) + 1, (1 << 32) + 65], vec![1 << 12, (1 << 16) + 5, (1 << 24) + 1, 1 << 31, 1 << 32, (1 << 32) + 65, (1 << 34) + 1]) {
        for off in [0u64, 1, 63, 4096] {
            for sk in 0..3 {
                for s in 0..if sk == 2 { 1 } else { far_bounds(n as usize, off as usize).len() as u64 } {
                    if !f(&[n, off, sk, s]) {
                        return;
                    }
                }
            }
        }
    }
}
fn far_bounds(n: usize, off: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 63, 64, n / 2, n - 64, n - 1, n, n + 1, n + 2, n + 63, n + 64, n + 70, n + off, off, 1 << 63, usize::MAX - 63, usize::MAX - off, usize::MAX - 1, usize::MAX];
    for k in [8, 16, 24, 31, 32, 33, 48] {
        v.extend([(1 << k) - 1, 1 << k, (1 << k) + 1, n + (1 << k)]);
    }
    v.sort_unstable();
    v.dedup();
    v
}
/// The same over long vectors and slices of them, with bounds around all powers of two.
fn c04_long(c: &[u64], st: &mut St) -> Res {
    let (n, off) = (c[0] as usize, c[1] as usize);
    let mut bv = BitVec::new(off + n + 70);
    bv.set(off, true);
    bv.set(off + n - 1, true);
    let vals = far_bounds(n, off);
    for ek in 0..3 {
        for &ev in &vals {
            let r: Rng = (bound(c[2], vals[c[3] as usize]), bound(ek, ev));
            let (s, e) = normal(r, n);
            let valid = s <= n as u128 && e <= n as u128 && s <= e;
            st.step(2);
            st.outcome(valid as u64);
            let shared = {
                let got = std::cell::Cell::new(None);
                let p = panics(|| got.set(Some(bv.slice(off..off + n).slice(r).len())));
                (p, got.get())
            };
            let mutable = {
                let got = std::cell::Cell::new(None);
                let p = panics(|| got.set(Some(bv.slice_mut(off..off + n).slice_mut(r).len())));
                (p, got.get())
            };
            let want = if valid { (false, Some((e - s) as usize)) } else { (true, None) };
            ensure_eq!(want, shared, "slice {r:?} of {n} bits (offset {off}): whether it panicked, length");
            ensure_eq!(want, mutable, "slice_mut {r:?} of {n} bits (offset {off}): whether it panicked, length");
            st.state(hash_words(14, &[n, off, c[2] as usize, c[3] as usize, ek as usize, ev]));
            if ek == 2 {
                break;
            }
        }
    }
    ensure!(bv.get(off) && bv.get(off + n - 1) && !bv.get(off + 1) && !bv.get(off + n), "contents changed by slicing {n} bits");
    Ok(())
}
pub fn c04() -> Vec<Space> {
    vec![
        Space { name: "bounds", about: "every combination of bound kinds and values 0..length+3 plus values up to the largest integer, on vectors and slices, shared and mutable; valid ones must work", cases: c04_cases, run: c04_run, serial: false },
        Space { name: "long", about: "slices of long vectors, bounds around all powers of two and the length in every form", cases: c04_long_cases, run: c04_long, serial: false },
        Space { name: "constructor", about: "every ordered and inverted pair of bounds from the value list", cases: c04_new_cases, run: c04_new, serial: false },
    ]
}

// ------------------------------------------------------------------ C05

/// lens and window offsets
fn c05_shape_cases(t: Tier, f: Feed) {
    for off in [0u64, 1, 2, 63, 64] {
        let mut ns: Vec<u64> = (0..=t.pick(40, 80)).collect();
        ns.extend([63, 64, 65, 66, 127, 128, 129]);
        for n in ns {
            if !f(&[off, n]) {
                return;
            }
        }
    }
}
fn c05_shape(c: &[u64], st: &mut St) -> Res {
    let (off, n) = (c[0] as usize, c[1] as usize);
    let total = off + n + 3;
    for m in codes(total) {
        let mut bv = make_bits(&m);
        let own = make(n, |i| m[off + i]);
        let before = bv.raw().to_vec();
        for k in 0..n {
            st.step(3);
            st.state(hash_words(5, &[off, n, k]));
            let parent = bv.slice(off..off + n);
            let (l, r) = parent.split_at(k);
            ensure!(l.len() == k && r.len() == n - k, "split_at({k}) of {n}: lengths {} and {}", l.len(), r.len());
            ensure!(l.all() == m[off..off + k] && r.all() == m[off + k..off + n], "split_at({k}) of window at {off}, {n} bits: contents");
            let (l, r) = own.split_at(k);
            ensure!(l.all() == m[off..off + k] && r.all() == m[off + k..off + n], "split_at({k}) of a vector of {n} bits: contents");
            let mut parent = bv.slice_mut(off..off + n);
            let (l, r) = parent.split_at_mut(k);
            ensure!(l.len() == k && r.len() == n - k, "split_at_mut({k}) of {n}: lengths {} and {}", l.len(), r.len());
            ensure!(l.all() == m[off..off + k] && r.all() == m[off + k..off + n], "split_at_mut({k}) of window at {off}, {n} bits: contents");
            // split the halves again, at every index
            for j in 0..k {
                let (a, b) = l.split_at(j);
                ensure!(a.all() == m[off..off + j] && b.all() == m[off + j..off + k], "split_at({k}) then left split_at({j})");
            }
            for j in 0..n - k {
                let (a, b) = r.split_at(j);
                ensure!(a.all() == m[off + k..off + k + j] && b.all() == m[off + k + j..off + n], "split_at({k}) then right split_at({j})");
            }
        }
        let mut bad: Vec<usize> = (n..n + 5).collect();
        bad.extend([n + 64, 1 << 32, 1 << 63, usize::MAX - off, (usize::MAX - off).wrapping_add(1), usize::MAX - 1, usize::MAX]);
        bad.retain(|&k| k >= n);
        for k in bad {
            st.step(2);
            let mut parent = bv.slice_mut(off..off + n);
            ensure!(panics(|| parent.split_at(k).0.len()), "split_at({k}) of {n} bits (offset {off}) did not panic");
            ensure!(panics(|| parent.split_at_mut(k).0.len()), "split_at_mut({k}) of {n} bits (offset {off}) did not panic");
        }
        ensure!(bv.raw() == before, "splitting changed the contents");
    }
    Ok(())
}
fn c05_write_cases(t: Tier, f: Feed) {
    // (offset, length, split)
    for (off, n) in [(0u64, 2u64), (0, 3), (1, 3), (0, 4), (62, 4), (63, 3)] {
        for k in 0..n {
            for bg in 0..4 {
                for nested in 0..2 {
                    if !f(&[off, n, k, bg, nested, t.pick(4, 5)]) {
                        return;
                    }
                }
            }
        }
    }
}
/// All interleavings of writes through both halves, from several contents.
fn c05_write(c: &[u64], st: &mut St) -> Res {
    let (off, n, k, bg, nested, depth) = (c[0] as usize, c[1] as usize, c[2] as usize, c[3], c[4], c[5] as usize);
    let total = off + n + 2;
    let base = model(total, |i| pat(bg, i, total));
    let mut r = Ok(());
    words(3 * n as u64, depth, &mut |w| {
        let mut m = base.clone();
        let mut bv = make_bits(&base);
        let res = (|| -> Res {
            let mut parent = bv.slice_mut(off..off + n);
            let (mut l, mut rr) = parent.split_at_mut(k);
            for (d, &x) in w.iter().enumerate() {
                let (p, op) = ((x / 3) as usize, x % 3);
                let kind = d as u64 + x;
                if p < k {
                    if nested == 1 && k > 1 {
                        let (mut a, mut b) = l.split_at_mut(k / 2);
                        if p < k / 2 {
                            a.wr(kind, op, p)
                        } else {
                            b.wr(kind, op, p - k / 2)
                        }
                    } else {
                        l.wr(kind, op, p);
                    }
                } else {
                    rr.wr(kind, op, p - k);
                }
                apply_model(&mut m, op, off + p);
                st.step(1);
                st.state(mix(hash_bits(k as u64, &m), off as u64));
                for i in 0..k {
                    ensure_eq!(m[off + i], l.rd(d as u64 % 4, i), "split {k} of {n}: left bit {i} after {w:?} step {d}");
                }
                for i in k..n {
                    ensure_eq!(m[off + i], rr.rd(d as u64 % 4, i - k), "split {k} of {n}: right bit {i} after {w:?} step {d}");
                }
            }
            Ok(())
        })();
        st.traces += 1;
        st.outcome(hash_bits(0, &m));
        r = res.and_then(|_| check_vec(&bv, &m, 1));
        r.is_ok()
    });
    r
}
fn c05_walk_cases(t: Tier, f: Feed) {
    for n in t.pick(vec![66u64, 130, 200, 513], vec![66, 130, 200, 513, 700, 1100]) {
        for k in 0..n {
            if !f(&[n, k]) {
                return;
            }
        }
    }
}
/// Alternating writes through both halves over every bit.
fn c05_walk(c: &[u64], st: &mut St) -> Res {
    let (n, k) = (c[0] as usize, c[1] as usize);
    for (bg, own) in [(0u64, true), (1, false)] {
        let mut m = model(n, |i| pat(bg, i, n));
        let mut bv = make_bits(&m);
        {
            let mut all = bv.slice_mut(..);
            let run = |l: &mut dyn Writes, r: &mut dyn Writes, m: &mut Vec<bool>, st: &mut St| -> Res {
                for i in 0..k.max(n - k) {
                    if i < k {
                        l.wr(i as u64, 2, i);
                        m[i] = !m[i];
                        st.step(1);
                    }
                    if i < n - k {
                        r.wr(i as u64 / 2, 2, i);
                        m[k + i] = !m[k + i];
                        st.step(1);
                    }
                    if i % 16 == 0 {
                        ensure!(l.all() == m[..k], "split {k} of {n}: left half after {i} rounds");
                        ensure!(r.all() == m[k..], "split {k} of {n}: right half after {i} rounds");
                    }
                }
                Ok(())
            };
            if own {
                let (mut l, mut r) = all.split_at_mut(k);
                run(&mut l, &mut r, &mut m, st)?;
            } else {
                drop(all);
                let (mut l, mut r) = bv.split_at_mut(k);
                run(&mut l, &mut r, &mut m, st)?;
            }
        }
        check_vec(&bv, &m, 1)?;
        st.state(hash_words(bg, &[n, k]));
    }
    Ok(())
}
fn c05_direct_cases(_t: Tier, f: Feed) {
    for s in 0..=12u64 {
        for e in s..=12 {
            if !f(&[s, e]) {
                return;
            }
        }
    }
}
fn c05_direct(c: &[u64], st: &mut St) -> Res {
    let (s, e) = (c[0] as usize, c[1] as usize);
    for k in 0..e - s {
        let mut d = BitSlice::new(Guarded::new(vec![false; 12], s, e), s, e);
        let mut g16 = BitSlice::new(0u16, s, e);
        for i in 0..e - s {
            {
                let (mut l, mut r) = d.split_at_mut(k);
                let (mut l2, mut r2) = g16.split_at_mut(k);
                if i < k {
                    l.flip(i);
                    l2.flip(i)
                } else {
                    r.flip(i - k);
                    r2.flip(i - k)
                }
                for j in 0..e - s {
                    let x = if j < k { (l.get(j), l2.get(j)) } else { (r.get(j - k), r2.get(j - k)) };
                    ensure_eq!((j <= i, j <= i), x, "split {k} of {s}..{e}: bit {j} after flipping 0..={i}");
                }
            }
            st.step(2);
            for j in 0..12 {
                ensure_eq!(j >= s && j <= s + i, d.backing().bits[j], "split {k} of {s}..{e}: storage bit {j}");
                ensure_eq!(j >= s && j <= s + i, g16.backing().get_bit(j), "split {k} of {s}..{e}: u16 bit {j}");
            }
        }
        ensure_eq!(0, d.backing().bad.get(), "split {k} of {s}..{e}: accesses outside the window");
        st.state(hash_words(6, &[s, e, k]));
    }
    Ok(())
}
fn c05_long_cases(t: Tier, f: Feed) {
    for n in crate::bits::around_powers(10, t.pick(33, 34)) {
        for off in [0u64, 1, 64] {
            if !f(&[n, off]) {
                return;
            }
        }
    }
}
/// Long vectors split at all power-of-two boundaries.
fn c05_long(c: &[u64], st: &mut St) -> Res {
    let (n, off) = (c[0] as usize, c[1] as usize);
    let mut bv = BitVec::new(off + n + 3);
    for k in crate::bits::big_probes(n) {
        {
            let mut parent = bv.slice_mut(off..off + n);
            let (l, r) = parent.split_at(k);
            ensure!(l.len() == k && r.len() == n - k, "split_at({k}) of {n}: lengths {} and {}", l.len(), r.len());
            let (mut l, mut r) = parent.split_at_mut(k);
            ensure!(l.len() == k && r.len() == n - k, "split_at_mut({k}) of {n}: lengths {} and {}", l.len(), r.len());
            r.wr(k as u64, 1, 0);
            if k > 0 {
                ensure!(!l.rd(0, k - 1), "split {k} of {n}: the right half's first bit shows in the left half");
                l.wr(k as u64, 2, k - 1);
            }
            r.wr(k as u64 / 2, 2, n - k - 1);
            ensure_eq!(n - k > 1, r.rd(1, 0), "split {k} of {n}: first bit of the right half");
            ensure!(panics(|| l.get(k)) && panics(|| r.get(n - k)) && panics(|| l.flip(k)) && panics(|| r.flip(n - k)), "split {k} of {n}: a half reaches beyond its end");
        }
        let want = |i: usize| (i == off + k) ^ (k > 0 && i == off + k - 1) ^ (i == off + n - 1);
        for i in [0, off, off + 1, off + k, (off + k).wrapping_sub(1), off + k + 1, off + n - 1, off + n, off + n + 1] {
            if i < off + n + 3 {
                ensure_eq!(want(i), bv.get(i), "split {k} of {n} bits at {off}: bit {i}");
            }
        }
        for i in [off + k, (off + k).wrapping_sub(1), off + n - 1] {
            if i < off + n + 3 {
                bv.set(i, false);
            }
        }
        st.step(5);
        st.state(hash_words(15, &[n, off, k]));
    }
    for k in beyond(n, off) {
        let mut parent = bv.slice_mut(off..off + n);
        ensure!(panics(|| parent.split_at(k).0.len()), "split_at({k}) of {n} bits (offset {off}) did not panic");
        ensure!(panics(|| parent.split_at_mut(k).0.len()), "split_at_mut({k}) of {n} bits (offset {off}) did not panic");
        st.step(2);
    }
    st.traces += 1;
    Ok(())
}
pub fn c05() -> Vec<Space> {
    vec![
        Space { name: "shapes", about: "every split index of every listed window, shared and mutable, splits of halves, rejected indices", cases: c05_shape_cases, run: c05_shape, serial: false },
        Space { name: "interleavings", about: "all sequences of writes through both halves (and halves of halves) up to the depth in the last coordinate", cases: c05_write_cases, run: c05_write, serial: false },
        Space { name: "walks", about: "alternating flips through both halves over every bit, for every split index", cases: c05_walk_cases, run: c05_walk, serial: false },
        Space { name: "direct", about: "splits of direct slices over guarded storage and integers", cases: c05_direct_cases, run: c05_direct, serial: false },
        Space { name: "long", about: "lengths around all powers of two to 2^33, split at all power-of-two boundaries, rejected indices up to the largest integer", cases: c05_long_cases, run: c05_long, serial: false },
    ]
}

// ------------------------------------------------------------------ C06

/// Everything an iterator over `want` must do. `mk` makes a fresh one.
pub fn iterator_obeys<T: PartialEq + std::fmt::Debug + Copy, I: ExactSizeIterator<Item = T>>(mk: &mut dyn FnMut(&mut dyn FnMut(I) -> Res) -> Res, want: &[T], ctx: &str, deep: bool, st: &mut St) -> Res {
    let n = want.len();
    // step by step with exact sizes
    mk(&mut |mut it| {
        for p in 0..n {
            ensure_eq!(n - p, it.len(), "{ctx}: remaining length after {p} steps");
            ensure_eq!((n - p, Some(n - p)), it.size_hint(), "{ctx}: size hint after {p} steps");
            ensure_eq!(Some(want[p]), it.next(), "{ctx}: element {p}");
        }
        for _ in 0..3 {
            ensure_eq!((0, Some(0)), it.size_hint(), "{ctx}: size hint at the end");
            ensure_eq!(0, it.len(), "{ctx}: remaining length at the end");
            ensure_eq!(None, it.next(), "{ctx}: after the end");
        }
        Ok(())
    })?;
    st.step(n as u64 + 3);
    if !deep {
        return Ok(());
    }
    // every starting position p reached by next, then every terminal operation and adaptor
    for p in 0..=n + 1 {
        let left = &want[p.min(n)..];
        macro_rules! from {
            (|$it:ident| $e:expr, $want:expr, $what:literal) => {
                mk(&mut |mut $it| {
                    for _ in 0..p {
                        $it.next();
                    }
                    let w = $want;
                    ensure_eq!(w, $e, "{ctx}: {} after {p} steps", $what);
                    Ok(())
                })?;
                st.step(1);
            };
        }
        from!(|it| it.collect::<Vec<_>>(), left.to_vec(), "collect");
        from!(|it| it.count(), left.len(), "count");
        from!(|it| it.last(), left.last().copied(), "last");
        from!(|it| it.fold(0usize, |a, _| a + 1), left.len(), "fold");
        from!(|it| it.by_ref().map(|x| x).len(), left.len(), "map len");
        from!(|it| it.by_ref().enumerate().len(), left.len(), "enumerate len");
        from!(|it| it.peekable().len(), left.len(), "peekable len");
        from!(|it| it.zip(0..1000).len(), left.len(), "zip len");
        from!(|it| it.fuse().collect::<Vec<_>>(), left.to_vec(), "fuse");
        for k in 0..=left.len() + 2 {
            from!(|it| it.nth(k), left.get(k).copied(), "nth");
            from!(|it| { it.nth(k); (it.len(), it.size_hint(), it.next()) }, (left.len().saturating_sub(k + 1), (left.len().saturating_sub(k + 1), Some(left.len().saturating_sub(k + 1))), left.get(k + 1).copied()), "state after nth");
            from!(|it| it.take(k).len(), left.len().min(k), "take len");
            from!(|it| it.skip(k).len(), left.len().saturating_sub(k), "skip len");
            from!(|it| it.skip(k).collect::<Vec<_>>(), left[k.min(left.len())..].to_vec(), "skip");
            from!(|it| it.step_by(k + 1).collect::<Vec<_>>(), left.iter().copied().step_by(k + 1).collect::<Vec<_>>(), "step_by");
            from!(|it| it.step_by(k + 1).len(), left.iter().step_by(k + 1).len(), "step_by len");
        }
        for k in [usize::MAX, usize::MAX - 1, 1 << 32, 1 << 63] {
            // a skip can only end at the end; only sensible for counting down a bounded number of elements
            from!(|it| it.take(k).len(), left.len(), "take huge len");
            from!(|it| { let a = it.nth(k); (a, it.next(), it.len()) }, (None, None, 0), "nth beyond the end");
        }
    }
    // every program of steps (next, nth 0..3), not merged
    if n <= 5 {
        let mut stack: Vec<Vec<usize>> = vec![vec![]];
        while let Some(prog) = stack.pop() {
            let pos = prog.iter().sum::<usize>() + prog.len();
            mk(&mut |mut it| {
                let mut at = 0usize;
                for &k in &prog {
                    let got = if k == 0 { it.next() } else { it.nth(k) };
                    ensure_eq!(want.get(at + k).copied(), got, "{ctx}: program {prog:?}");
                    at += k + 1;
                    let rest = n.saturating_sub(at);
                    ensure_eq!((rest, (rest, Some(rest))), (it.len(), it.size_hint()), "{ctx}: remaining after program {prog:?}");
                }
                Ok(())
            })?;
            st.step(1);
            if pos < n + 2 {
                for k in 0..3 {
                    let mut q = prog.clone();
                    q.push(k);
                    stack.push(q);
                }
            }
        }
    }
    Ok(())
}
/// All ways to get an iterator over the window lo..hi of m.
fn iter_sources(m: &[bool], lo: usize, hi: usize, deep: bool, st: &mut St) -> Res {
    let want = &m[lo..hi];
    let bv = make_bits(m);
    let mut bm = bv.clone();
    let d = |s: &str| format!("{s} over {lo}..{hi} of {}", show(m));
    let sl = bv.slice(lo..hi);
    iterator_obeys(&mut |f| f(sl.iter()), want, &d("slice.iter()"), deep, st)?;
    iterator_obeys(&mut |f| f((&sl).into_iter()), want, &d("(&slice).into_iter()"), deep, st)?;
    iterator_obeys(&mut |f| f(bv.slice(lo..hi).into_iter()), want, &d("slice.into_iter()"), deep, st)?;
    {
        // the closure cannot hand out a reborrow of bm, so it goes through a pointer; only one iterator exists at a time
        let pm: *mut BitVec = &mut bm;
        iterator_obeys(&mut |f| f(unsafe { &mut *pm }.slice_mut(lo..hi).into_iter()), want, &d("slice_mut.into_iter()"), deep, st)?;
    }
    {
        let sm = bm.slice_mut(lo..hi);
        iterator_obeys(&mut |f| f(sm.iter()), want, &d("slice_mut.iter()"), deep, st)?;
    }
    iterator_obeys(&mut |f| f(Iter::new(&*bv, lo, hi)), want, &d("Iter::new over a vector"), deep, st)?;
    iterator_obeys(&mut |f| f(sl.slice(..).into_iter()), want, &d("nested slice"), deep, st)?;
    if lo == 0 && hi == m.len() {
        iterator_obeys(&mut |f| f(bv.iter()), want, &d("vector.iter()"), deep, st)?;
        iterator_obeys(&mut |f| f((&bv).into_iter()), want, &d("(&vector).into_iter()"), deep, st)?;
    }
    let g = BitSlice::new(Guarded::new(m.to_vec(), lo, hi), lo, hi);
    iterator_obeys(&mut |f| f(g.iter()), want, &d("guarded.iter()"), deep, st)?;
    iterator_obeys(&mut |f| f(g.clone().into_iter()), want, &d("guarded.into_iter()"), deep, st)?;
    ensure_eq!(0, g.backing().bad.get(), "{}", d("iteration touched bits outside"));
    check_vec(&bv, m, 1)?;
    check_vec(&bm, m, 1)
}
fn c06_small_cases(t: Tier, f: Feed) {
    for n in 0..=t.pick(7u64, 9) {
        for s in 0..1u64 << n {
            if !f(&[n, s]) {
                return;
            }
        }
    }
}
fn c06_small(c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    let m = model(n, |i| c[1] >> i & 1 == 1);
    for lo in 0..=n {
        for hi in lo..=n {
            st.state(mix(hash_bits(0, &m), (lo * 64 + hi) as u64));
            st.outcome(hash_bits(0, &m[lo..hi]));
            iter_sources(&m, lo, hi, true, st)?;
        }
    }
    Ok(())
}
fn c06_len_cases(t: Tier, f: Feed) {
    let mut ns: Vec<u64> = (0..=t.pick(1300, 4200)).collect();
    ns.extend([4095, 4096, 4097, 8191, 8193, 65535, 65536, 65537]);
    for n in ns {
        for p in [0u64, 1, 2, 3, 5, 6, 7] {
            if !f(&[n, p]) {
                return;
            }
        }
    }
}
fn c06_len(c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    let m = model(n, |i| pat(c[1], i, n));
    st.state(hash_bits(1, &m));
    iter_sources(&m, 0, n, false, st)?;
    for (lo, hi) in [(1, n), (0, n.wrapping_sub(1)), (63, n), (64, n), (n / 3, n), (n / 3, n - n / 4)] {
        if lo <= hi && hi <= n {
            iter_sources(&m, lo, hi, false, st)?;
        }
    }
    Ok(())
}
fn c06_edge_cases(_t: Tier, f: Feed) {
    for n in [66u64, 130] {
        for lo in 0..=n {
            if lo % 64 > 2 && lo % 64 < 60 {
                continue;
            }
            for hi in lo..=(lo + 9).min(n) {
                if !f(&[n, lo, hi]) {
                    return;
                }
            }
        }
    }
}
fn c06_edge(c: &[u64], st: &mut St) -> Res {
    let (n, lo, hi) = (c[0] as usize, c[1] as usize, c[2] as usize);
    for p in [2, 3, 7] {
        let m = model(n, |i| pat(p, i, n));
        st.state(mix(hash_bits(2, &m), (lo * 1000 + hi) as u64));
        iter_sources(&m, lo, hi, true, st)?;
    }
    Ok(())
}
fn c06_far_cases(_t: Tier, f: Feed) {
    for n in [(1u64 << 32) + 90, (1 << 33) + 5] {
        if !f(&[n]) {
            return;
        }
    }
}
/// Iteration at positions beyond 2^32, and lengths beyond it.
fn c06_far(c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    let mut bv = BitVec::new(n);
    for base in [0usize, 1 << 16, (1 << 32) - 70, 1 << 32, n - 140] {
        for i in 0..50 {
            bv.set(base + i, i % 3 == 0);
        }
        let lo = base.saturating_sub(20).min(n);
        let hi = (base + 60).min(n);
        let sl = bv.slice(lo..hi);
        let want: Vec<bool> = (lo..hi).map(|i| bv.get(i)).collect();
        ensure!(want.iter().any(|&b| b), "far window is empty");
        iterator_obeys(&mut |f| f(sl.iter()), &want, &format!("slice {lo}..{hi} of {n}"), false, st)?;
        iterator_obeys(&mut |f| f(bv.slice(lo..hi).into_iter()), &want, &format!("slice {lo}..{hi} of {n}"), false, st)?;
        let mut it = bv.slice(base..).into_iter();
        for i in 0..50usize {
            ensure_eq!((n - base - i, (n - base - i, Some(n - base - i))), (it.len(), it.size_hint()), "remaining of {base}..{n}");
            ensure_eq!(Some(i % 3 == 0), it.next(), "element {i} of {base}..{n}");
        }
        st.step(50);
        st.state(mix(n as u64, base as u64));
        for i in 0..50 {
            bv.set(base + i, false);
        }
    }
    Ok(())
}
pub fn c06() -> Vec<Space> {
    vec![
        Space { name: "contents", about: "every content and window of vectors up to the bound; eleven ways to get an iterator; every program of next/nth steps and every adaptor from every position", cases: c06_small_cases, run: c06_small, serial: false },
        Space { name: "word-edges", about: "short windows around word boundaries with the same programs", cases: c06_edge_cases, run: c06_edge, serial: false },
        Space { name: "lengths", about: "every length up to the bound stepped to the end with exact sizes", cases: c06_len_cases, run: c06_len, serial: false },
        Space { name: "far", about: "windows beyond 2^32", cases: c06_far_cases, run: c06_far, serial: false },
    ]
}

// ------------------------------------------------------------------ C07

fn eq2<A: BitGet, B: BitGet>(a: &BitSlice<A>, b: &BitSlice<B>, want: bool, ctx: &dyn Fn() -> String, st: &mut St) -> Res {
    st.step(4);
    ensure_eq!(want, a == b, "{}: ==", ctx());
    ensure_eq!(want, b == a, "{}: == the other way round", ctx());
    ensure_eq!(!want, a != b, "{}: !=", ctx());
    ensure_eq!(!want, b != a, "{}: != the other way round", ctx());
    Ok(())
}
/// x placed at offset o in a vector filled with `fill`
fn place(x: &[bool], o: usize, fill: bool, tail: usize) -> Vec<bool> {
    let mut v = vec![fill; o];
    v.extend_from_slice(x);
    v.extend(vec![fill; tail]);
    v
}
fn pack(m: &[bool]) -> u64 {
    m.iter().take(64).enumerate().fold(0, |a, (i, &b)| a | (b as u64) << i)
}
fn eq_all_kinds(x: &[bool], y: &[bool], ox: usize, oy: usize, fx: bool, fy: bool, st: &mut St) -> Res {
    let want = x == y;
    let (mx, my) = (place(x, ox, fx, 3), place(y, oy, fy, 70));
    let bx = make_bits(&mx);
    let by = make_bits(&my);
    let mut by2 = by.clone();
    let mut bx2 = bx.clone();
    let (ex, ey) = (ox + x.len(), oy + y.len());
    let c = || format!("{} at {ox} (fill {fx}) against {} at {oy} (fill {fy})", show(x), show(y));
    st.outcome(want as u64);
    let sx = bx.slice(ox..ex);
    let sy = by.slice(oy..ey);
    eq2(&sx, &sy, want, &c, st)?;
    eq2(&sx, &by2.slice_mut(oy..ey), want, &c, st)?;
    eq2(&bx2.slice_mut(ox..ex), &by2.slice_mut(oy..ey), want, &c, st)?;
    eq2(&sx.slice(..), &sy, want, &c, st)?;
    eq2(&sx, &BitSlice::new(Guarded::new(my.clone(), oy, ey), oy, ey), want, &c, st)?;
    let wy: &[usize] = by.raw();
    eq2(&sx, &BitSlice::new(wy, oy, ey), want, &c, st)?;
    eq2(&BitSlice::new(&*bx, ox, ex), &BitSlice::new(&sy, 0, y.len()), want, &c, st)?;
    if ey <= 64 {
        let p = pack(&my);
        eq2(&sx, &BitSlice::new(p, oy, ey), want, &c, st)?;
        eq2(&BitSlice::new(Rc::new(p), oy, ey), &sx, want, &c, st)?;
        eq2(&BitSlice::new(Box::new(p as usize), oy, ey), &BitSlice::new(&p, oy, ey), true, &c, st)?;
    }
    // whole vectors
    let vx = make_bits(x);
    let vy = make_bits(y);
    eq2(&*vx, &*vy, want, &c, st)?;
    eq2(&*vx, &sy, want, &c, st)?;
    eq2(&sx, &sx.slice(..), true, &c, st)?;
    check_vec(&bx, &mx, 1)?;
    check_vec(&by, &my, 1)
}
trait Visit {
    fn visit<B: BitGet>(&mut self, s: &BitSlice<B>) -> Res;
}
const STORAGES: u64 = 21;
/// Calls `v` with the window o..e of storage of kind `k` that holds the bits of `w`.
fn with_storage<V: Visit>(k: u64, w: u8, o: usize, e: usize, v: &mut V) -> Res {
    let mut words = [w as usize, !(w as usize)];
    match k {
        0 => v.visit(&BitSlice::new(w, o, e)),
        1 => v.visit(&BitSlice::new(w as u16, o, e)),
        2 => v.visit(&BitSlice::new(w as u32, o, e)),
        3 => v.visit(&BitSlice::new(w as u64, o, e)),
        4 => v.visit(&BitSlice::new(w as usize, o, e)),
        5 => v.visit(&BitSlice::new(&w, o, e)),
        6 => v.visit(&BitSlice::new(&mut (w as u16), o, e)),
        7 => v.visit(&BitSlice::new(Box::new(w as u32), o, e)),
        8 => v.visit(&BitSlice::new(Rc::new(w as u64), o, e)),
        9 => v.visit(&BitSlice::new(Rc::new(w), o, e)),
        10 => v.visit(&BitSlice::new(Box::new(w), o, e)),
        11 => v.visit(&BitSlice::new(&words[..], o, e)),
        12 => v.visit(&BitSlice::new(&mut words[..], o, e)),
        13 => v.visit(&BitSlice::new(Box::<[usize]>::from(words), o, e)),
        14 => v.visit(&BitSlice::new(&Box::<[usize]>::from(words), o, e)),
        15 => v.visit(&BitSlice::new(BitSlice::new(w, 0, 8), o, e)),
        16 => v.visit(&BitSlice::new(Rc::new(BitSlice::new(&words[..], 0, 128)), o, e)),
        17 => v.visit(&BitSlice::new(Box::new(BitSlice::new(w as u16, 0, 8)), o, e)),
        18 => v.visit(&BitSlice::new(Rc::new(Box::new(w)), o, e)),
        19 => v.visit(&BitSlice::new(&words[..1] as &[usize], o, e).slice(..)),
        _ => v.visit(&BitSlice::new(&&(w as u32), o, e)),
    }
}
struct First<'a> {
    other: (u64, u8, usize, usize),
    want: bool,
    ctx: &'a dyn Fn() -> String,
    st: &'a mut St,
}
struct Second<'a, 'b, A: BitGet> {
    one: &'a BitSlice<A>,
    want: bool,
    ctx: &'b dyn Fn() -> String,
    st: &'a mut St,
}
impl Visit for First<'_> {
    fn visit<A: BitGet>(&mut self, one: &BitSlice<A>) -> Res {
        let (k, w, o, e) = self.other;
        with_storage(k, w, o, e, &mut Second { one, want: self.want, ctx: self.ctx, st: self.st })
    }
}
impl<A: BitGet> Visit for Second<'_, '_, A> {
    fn visit<B: BitGet>(&mut self, other: &BitSlice<B>) -> Res {
        eq2(self.one, other, self.want, self.ctx, self.st)
    }
}
fn c07_storage_cases(_t: Tier, f: Feed) {
    for a in 0..STORAGES {
        for b in 0..STORAGES {
            if !f(&[a, b]) {
                return;
            }
        }
    }
}
/// All contents of short windows in every kind of storage against those in every other kind.
fn c07_storage(c: &[u64], st: &mut St) -> Res {
    for (ox, oy) in [(0, 0), (1, 0), (0, 3), (3, 1), (4, 4)] {
        for (a, b) in (0..=4).flat_map(|a| (0..=4).map(move |b| (a, b))) {
            for (x, y) in (0..1u32 << a).flat_map(|x| (0..1u32 << b).map(move |y| (x, y))) {
                for fill in 0..4 {
                    // the bits around the window
                    let around = |v: u32, o: usize, n: usize, one: bool| ((v << o) | if one { !(((1 << n) - 1) << o) } else { 0 }) as u8;
                    let (wx, wy) = (around(x, ox, a, fill & 1 == 1), around(y, oy, b, fill & 2 == 2));
                    let want = (a, x) == (b, y);
                    let ctx = || format!("{a} bits at {ox} of {wx:#x} in storage {} against {b} bits at {oy} of {wy:#x} in storage {}", c[0], c[1]);
                    with_storage(c[0], wx, ox, ox + a, &mut First { other: (c[1], wy, oy, oy + b), want, ctx: &ctx, st: &mut *st })?;
                    st.outcome(want as u64);
                }
            }
        }
    }
    st.state(mix(c[0], c[1]));
    Ok(())
}
fn c07_small_cases(t: Tier, f: Feed) {
    for a in 0..=t.pick(5u64, 6) {
        for b in 0..=t.pick(5u64, 6) {
            for s in 0..1u64 << a {
                if !f(&[a, b, s]) {
                    return;
                }
            }
        }
    }
}
fn c07_small(c: &[u64], st: &mut St) -> Res {
    let (a, b) = (c[0] as usize, c[1] as usize);
    let x = model(a, |i| c[2] >> i & 1 == 1);
    for s in 0..1u64 << b {
        let y = model(b, |i| s >> i & 1 == 1);
        for ox in [0, 1, 62, 64] {
            for oy in [0, 3, 63] {
                for fill in 0..4 {
                    st.state(hash_words(c[2], &[a, b, s as usize, ox, oy, fill]));
                    eq_all_kinds(&x, &y, ox, oy, fill & 1 == 1, fill & 2 == 2, st)?;
                }
            }
        }
    }
    Ok(())
}
fn c07_hot_cases(t: Tier, f: Feed) {
    let mut ns: Vec<u64> = (1..=t.pick(300, 600)).collect();
    ns.extend([511, 512, 513, 1000, 4096, 4097]);
    for n in ns {
        for p in 0..PATTERNS {
            if !f(&[n, p]) {
                return;
            }
        }
    }
}
/// Long slices that differ in exactly one bit, or only in length.
fn c07_hot(c: &[u64], st: &mut St) -> Res {
    let n = c[0] as usize;
    let x = model(n, |i| pat(c[1], i, n));
    st.state(hash_bits(3, &x));
    let offs: &[(usize, usize)] = &[(0, 0), (0, 1), (5, 0), (64, 63), (1, 64)];
    for &(ox, oy) in offs {
        eq_all_kinds(&x, &x, ox, oy, false, true, st)?;
        for fill in [false, true] {
            eq_all_kinds(&x, &x[..n - 1], ox, oy, fill, fill, st)?;
            eq_all_kinds(&x[..n - 1], &x, ox, oy, fill, fill, st)?;
            eq_all_kinds(&x[1..], &x, ox, oy, fill, fill, st)?;
        }
        let bx = make_bits(&place(&x, ox, false, 0));
        let sx = bx.slice(ox..);
        let mut by = make_bits(&place(&x, oy, true, 5));
        for p in 0..n {
            by.flip(oy + p);
            let sy = by.slice(oy..oy + n);
            eq2(&sx, &sy, false, &|| format!("{} at {ox} against the same at {oy} with bit {p} flipped", show(&x)), st)?;
            by.flip(oy + p);
        }
        let sy = by.slice(oy..oy + n);
        eq2(&sx, &sy, true, &|| format!("{} at {ox} against the same at {oy}", show(&x)), st)?;
    }
    Ok(())
}
fn c07_pair_cases(t: Tier, f: Feed) {
    for n in t.pick(vec![8u64, 66, 130], vec![8, 66, 130, 200]) {
        for lo in 0..=n {
            for hi in lo..=n {
                if !f(&[n, lo, hi]) {
                    return;
                }
            }
        }
    }
}
/// Every window of a vector against every other window of the same and of another vector.
fn c07_pair(c: &[u64], st: &mut St) -> Res {
    let (n, lo, hi) = (c[0] as usize, c[1] as usize, c[2] as usize);
    for p in [0, 2, 3, 7] {
        let m = model(n, |i| pat(p, i, n));
        let bv = make_bits(&m);
        let a = bv.slice(lo..hi);
        let len = hi - lo;
        for s in 0..=n {
            for l in [len, len + 1, len.wrapping_sub(1), 0] {
                if l > n || s + l > n {
                    continue;
                }
                st.step(1);
                let want = m[lo..hi] == m[s..s + l];
                st.outcome(want as u64);
                ensure_eq!(want, a == bv.slice(s..s + l), "windows {lo}..{hi} and {s}..{} of {}", s + l, show(&m));
            }
        }
        st.state(hash_words(p, &[n, lo, hi]));
    }
    Ok(())
}
fn c07_two_cases(t: Tier, f: Feed) {
    for n in t.pick(vec![64u64, 65, 128, 130, 192, 200, 260], vec![64, 65, 128, 130, 192, 200, 260, 320, 513, 640]) {
        for p in 0..PATTERNS {
            for i in 0..n {
                if !f(&[n, p, i]) {
                    return;
                }
            }
        }
    }
}
/// Slices that differ in exactly two bits, or have two bits exchanged.
fn c07_two(c: &[u64], st: &mut St) -> Res {
    let (n, i) = (c[0] as usize, c[2] as usize);
    let x = model(n, |i| pat(c[1], i, n));
    for (ox, oy) in [(0, 0), (7, 70)] {
        let bx = make_bits(&place(&x, ox, false, 0));
        let sx = bx.slice(ox..);
        let mut by = make_bits(&place(&x, oy, true, 5));
        by.flip(oy + i);
        for j in i + 1..n {
            by.flip(oy + j);
            eq2(&sx, &by.slice(oy..oy + n), false, &|| format!("{} at {ox} against the same at {oy} with bits {i} and {j} flipped", show(&x)), st)?;
            by.flip(oy + j);
        }
        by.flip(oy + i);
        eq2(&sx, &by.slice(oy..oy + n), true, &|| format!("{} at {ox} against the same at {oy}", show(&x)), st)?;
    }
    st.state(hash_words(c[1], &[n, i]));
    Ok(())
}
fn c07_len_cases(t: Tier, f: Feed) {
    for a in 0..=t.pick(260u64, 700) {
        if !f(&[a, 0]) {
            return;
        }
    }
    for k in 8..=33 {
        for a in [0, 1, 2, 63, 64, 65, 200] {
            if !f(&[a, k]) {
                return;
            }
        }
    }
}
/// Equal bits, different lengths: all pairs of short lengths, and lengths that differ by a power of two.
fn c07_len(c: &[u64], st: &mut St) -> Res {
    let a = c[0] as usize;
    let (longest, others): (usize, Vec<usize>) = match c[1] {
        0 => (720, (0..=720).collect()),
        k => (a + (1 << k) + 70, [a + (1 << k) - 1, a + (1 << k), a + (1 << k) + 1, a + (1 << k) + 64].to_vec()),
    };
    let zeros = BitVec::new(longest + 1);
    let ones = if c[1] <= 20 { Some(make(longest + 1, |_| true)) } else { None };
    for b in others {
        for bv in [Some(&zeros), ones.as_ref()].into_iter().flatten() {
            let what = || format!("{a} bits against {b} bits, all alike");
            eq2(&bv.slice(..a), &bv.slice(..b), a == b, &what, st)?;
            eq2(&bv.slice(1..=a), &bv.slice(..b), a == b, &what, st)?;
        }
        st.state(hash_words(7, &[a, b]));
    }
    Ok(())
}
fn c07_long_cases(t: Tier, f: Feed) {
    for k in [16, 20, t.pick(22, 27), 32] {
        if k == 32 && t == Tier::Quick {
            continue;
        }
        for p in [0u64, 1, 2, 3, 4] {
            if !f(&[k, p]) {
                return;
            }
        }
    }
}
/// Long slices that differ in one far bit.
fn c07_long(c: &[u64], st: &mut St) -> Res {
    let n = (1usize << c[0]) + 3;
    let mut bv = BitVec::new(n + 200);
    let at = match c[1] {
        0 => None,
        1 => Some(n - 1),
        2 => Some(n - 4),
        3 => Some(n / 2),
        _ => Some(0),
    };
    let want = at.is_none();
    if let Some(p) = at {
        bv.set(p + 1, true);
    }
    st.step(1);
    // the other window is one bit further and sees the odd one a position earlier or not at all
    ensure_eq!(want, bv.slice(..n) == bv.slice(1..=n), "{n} zeros but for bit {at:?} of the second");
    st.state(hash_words(9, &[n, c[1] as usize]));
    Ok(())
}
pub fn c07() -> Vec<Space> {
    vec![
        Space { name: "two-bits", about: "slices differing in exactly two bits, every pair of positions, eight patterns", cases: c07_two_cases, run: c07_two, serial: false },
        Space { name: "sizes", about: "all pairs of lengths up to the bound with all bits alike, and lengths that differ by about a power of two up to 2^33", cases: c07_len_cases, run: c07_len, serial: false },
        Space { name: "far", about: "slices of more than 2^16, 2^20, 2^22 bits (thorough 2^27, 2^32) equal or differing in one bit", cases: c07_long_cases, run: c07_long, serial: false },
        Space { name: "contents", about: "every pair of contents up to the bound at several offsets, surroundings and kinds of storage", cases: c07_small_cases, run: c07_small, serial: false },
        Space { name: "windows", about: "every window of a vector against every other window of similar length", cases: c07_pair_cases, run: c07_pair, serial: false },
        Space { name: "one-bit", about: "long slices equal, differing in exactly one bit at every position, or only in length", cases: c07_hot_cases, run: c07_hot, serial: false },
        Space { name: "storage", about: "every kind of storage against every other: all pairs of contents of up to four bits, five pairs of offsets", cases: c07_storage_cases, run: c07_storage, serial: false },
    ]
}

// ------------------------------------------------------------------ C08

macro_rules! int_value {
    ($t:ty, $v:expr, $st:expr) => {{
        let v: $t = $v;
        let w = <$t>::BITS as usize;
        for i in 0..w {
            let bit = (v >> i) & 1 == 1;
            let name = stringify!($t);
            ensure_eq!(bit, v.get_bit(i), "{name} {v:#x}: get_bit({i})");
            ensure_eq!(bit, unsafe { v.get_bit_unchecked(i) }, "{name} {v:#x}: get_bit_unchecked({i})");
            for (op, want) in [(0u64, v & !(1 << i)), (1, v | 1 << i), (2, v ^ 1 << i)] {
                let mut x = v;
                if op == 2 { x.flip_bit(i) } else { x.set_bit(i, op == 1) }
                ensure_eq!(want, x, "{name} {v:#x}: op {op} at {i}");
                let mut x = v;
                unsafe { if op == 2 { x.flip_bit_unchecked(i) } else { x.set_bit_unchecked(i, op == 1) } }
                ensure_eq!(want, x, "{name} {v:#x}: unchecked op {op} at {i}");
            }
        }
        $st.step(8 * w as u64);
        $st.state(mix(w as u64, v as u64));
    }};
}
fn interesting(w: u32) -> Vec<u64> {
    let mask = u64::MAX >> (64 - w);
    let mut v = vec![0, mask, mask / 3, mask / 3 * 2, mask / 5, mask / 15, mask / 255];
    for i in 0..w {
        v.push(1 << i);
        v.push(mask & !(1 << i));
        v.push((1u64 << i).wrapping_sub(1) & mask);
        for j in 0..i {
            v.push(1 << i | 1 << j);
            v.push(mask & !(1 << i | 1 << j));
            for k in 0..j {
                v.push(1 << i | 1 << j | 1 << k);
                v.push(mask & !(1 << i | 1 << j | 1 << k));
            }
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}
fn c08_int_cases(t: Tier, f: Feed) {
    for v in 0..256 {
        if !f(&[8, v]) {
            return;
        }
    }
    for v in 0..1 << 16 {
        if !f(&[16, v]) {
            return;
        }
    }
    for w in [32, 64, 65] {
        for v in interesting(if w == 32 { 32 } else { 64 }) {
            if !f(&[w, v]) {
                return;
            }
        }
    }
    if t == Tier::Thorough {
        for v in 0..1 << 22 {
            if !f(&[32, v]) || !f(&[32, v << 10]) {
                return;
            }
        }
    }
}
fn c08_int(c: &[u64], st: &mut St) -> Res {
    match c[0] {
        8 => int_value!(u8, c[1] as u8, st),
        16 => int_value!(u16, c[1] as u16, st),
        32 => int_value!(u32, c[1] as u32, st),
        64 => int_value!(u64, c[1], st),
        _ => int_value!(usize, c[1] as usize, st),
    }
    Ok(())
}
fn c08_arr_cases(t: Tier, f: Feed) {
    for words in 0..=t.pick(9, 20) {
        for p in 0..PATTERNS {
            if !f(&[words, p]) {
                return;
            }
        }
    }
}
fn c08_arr(c: &[u64], st: &mut St) -> Res {
    let words = c[0] as usize;
    let n = words * 64;
    let base: Vec<usize> = (0..words).map(|w| (0..64).fold(0usize, |a, b| a | (pat(c[1], w * 64 + b, n) as usize) << b)).collect();
    st.state(hash_words(0, &base));
    for i in 0..n {
        for (op, unchecked) in [(0u64, false), (1, false), (2, false), (0, true), (1, true), (2, true)] {
            let mut a = base.clone();
            let s: &mut [usize] = &mut a;
            ensure_eq!(base[i / 64] >> (i % 64) & 1 == 1, s.get_bit(i), "{words} words: get_bit({i})");
            ensure_eq!(base[i / 64] >> (i % 64) & 1 == 1, unsafe { s.get_bit_unchecked(i) }, "{words} words: get_bit_unchecked({i})");
            match (op, unchecked) {
                (2, false) => s.flip_bit(i),
                (2, true) => unsafe { s.flip_bit_unchecked(i) },
                (v, false) => s.set_bit(i, v == 1),
                (v, true) => unsafe { s.set_bit_unchecked(i, v == 1) },
            }
            st.step(3);
            let mut want = base.clone();
            let b = 1usize << (i % 64);
            match op {
                0 => want[i / 64] &= !b,
                1 => want[i / 64] |= b,
                _ => want[i / 64] ^= b,
            }
            ensure_eq!(want, a, "{words} words: op {op} (unchecked {unchecked}) at {i}");
        }
    }
    Ok(())
}
fn wrapper_reads<B: BitGet + ?Sized>(name: &str, b: &B, m: &[bool], panicky: bool, st: &mut St) -> Res {
    for (i, &e) in m.iter().enumerate() {
        ensure_eq!(e, b.get_bit(i), "{name}: get_bit({i})");
        ensure_eq!(e, unsafe { b.get_bit_unchecked(i) }, "{name}: get_bit_unchecked({i})");
    }
    st.step(2 * m.len() as u64);
    if panicky {
        for i in [m.len(), m.len() + 1, m.len() + 64, 1 << 32, usize::MAX] {
            ensure!(panics(|| b.get_bit(i)), "{name}: get_bit({i}) of {} bits did not panic", m.len());
        }
        st.step(5);
    }
    Ok(())
}
fn wrapper_writes<B: BitModify + ?Sized>(name: &str, b: &mut B, m: &mut [bool], look: &dyn Fn(&B) -> Vec<bool>, panicky: bool, st: &mut St) -> Res {
    for i in 0..m.len() {
        for op in 0..6u64 {
            match op {
                0 => b.set_bit(i, false),
                1 => b.set_bit(i, true),
                2 => b.flip_bit(i),
                3 => unsafe { b.set_bit_unchecked(i, false) },
                4 => unsafe { b.set_bit_unchecked(i, true) },
                _ => unsafe { b.flip_bit_unchecked(i) },
            }
            apply_model(m, op % 3, i);
            st.step(1);
            let got = look(b);
            ensure!(got == *m, "{name}: op {op} at {i}: {} instead of {}", show(&got), show(m));
        }
        // leave a mark so that later operations start from varied contents
        if i % 2 == 0 {
            b.flip_bit(i);
            apply_model(m, 2, i);
        }
    }
    if panicky {
        for i in [m.len(), m.len() + 1, m.len() + 64, 1 << 32, usize::MAX] {
            ensure!(panics(|| b.set_bit(i, true)), "{name}: set_bit({i}, true) did not panic");
            ensure!(panics(|| b.set_bit(i, false)), "{name}: set_bit({i}, false) did not panic");
            ensure!(panics(|| b.flip_bit(i)), "{name}: flip_bit({i}) did not panic");
            ensure!(look(b) == *m, "{name}: rejected write at {i} changed the contents");
        }
        st.step(15);
    }
    Ok(())
}
fn c08_wrap_cases(_t: Tier, f: Feed) {
    for k in 0..PATTERNS {
        for kind in 0..3 {
            if !f(&[k, kind]) {
                return;
            }
        }
    }
}
/// References, mutable references, boxes and reference-counted pointers, also stacked.
fn c08_wrap(c: &[u64], st: &mut St) -> Res {
    fn stack<T: BA + Clone>(name: &str, v: T, n: usize, st: &mut St) -> Res {
        let m: Vec<bool> = read(&v, n);
        wrapper_reads::<&T>(&format!("&{name}"), &&v, &m, true, st)?;
        wrapper_reads::<&&T>(&format!("&&{name}"), &&&v, &m, true, st)?;
        wrapper_reads::<&mut T>(&format!("&mut {name}"), &&mut v.clone(), &m, true, st)?;
        wrapper_reads::<Box<T>>(&format!("Box<{name}>"), &Box::new(v.clone()), &m, true, st)?;
        wrapper_reads::<Rc<T>>(&format!("Rc<{name}>"), &Rc::new(v.clone()), &m, true, st)?;
        wrapper_reads::<Rc<Box<T>>>(&format!("Rc<Box<{name}>>"), &Rc::new(Box::new(v.clone())), &m, true, st)?;
        wrapper_reads::<Box<Rc<T>>>(&format!("Box<Rc<{name}>>"), &Box::new(Rc::new(v.clone())), &m, true, st)?;
        let mut m2 = m.clone();
        let mut x = v.clone();
        wrapper_writes::<T>(name, &mut x, &mut m2, &|b| read(b, n), true, st)?;
        let mut m2 = m.clone();
        let mut x = v.clone();
        wrapper_writes::<&mut T>(&format!("&mut {name}"), &mut &mut x, &mut m2, &|b| read(*b, n), true, st)?;
        ensure!(read(&x, n) == m2, "&mut {name}: target contents");
        let mut m2 = m.clone();
        let mut x = v.clone();
        wrapper_writes::<&mut &mut T>(&format!("&mut &mut {name}"), &mut &mut &mut x, &mut m2, &|b| read(**b, n), true, st)?;
        let mut m2 = m.clone();
        wrapper_writes::<Box<T>>(&format!("Box<{name}>"), &mut Box::new(v.clone()), &mut m2, &|b| read(&**b, n), true, st)?;
        let mut m2 = m.clone();
        let mut x = v.clone();
        wrapper_writes::<Box<&mut T>>(&format!("Box<&mut {name}>"), &mut Box::new(&mut x), &mut m2, &|b| read(&**b, n), true, st)?;
        ensure!(read(&x, n) == m2, "Box<&mut {name}>: target contents");
        ensure!(read(&v, n) == m, "{name}: original changed through a clone");
        Ok(())
    }
    let p = c[0];
    st.state(mix(p, c[1]));
    match c[1] {
        0 => {
            stack("u8", pack(&model(8, |i| pat(p, i, 8))) as u8, 8, st)?;
            stack("u16", pack(&model(16, |i| pat(p, i, 16))) as u16, 16, st)?;
            stack("u32", pack(&model(32, |i| pat(p, i, 32))) as u32, 32, st)?;
            stack("u64", pack(&model(64, |i| pat(p, i, 64))), 64, st)?;
            stack("usize", pack(&model(64, |i| pat(p, i, 64))) as usize, 64, st)
        }
        1 => {
            let mut words: Vec<usize> = vec![0; 3];
            for i in 0..192 {
                if pat(p, i, 192) {
                    words[i / 64] |= 1 << (i % 64);
                }
            }
            let m = model(192, |i| pat(p, i, 192));
            wrapper_reads::<[usize]>("[usize]", &words[..], &m, true, st)?;
            wrapper_reads::<&[usize]>("&[usize]", &&words[..], &m, true, st)?;
            wrapper_reads::<Box<[usize]>>("Box<[usize]>", &words.clone().into_boxed_slice(), &m, true, st)?;
            wrapper_reads::<Rc<Box<[usize]>>>("Rc<Box<[usize]>>", &Rc::new(words.clone().into_boxed_slice()), &m, true, st)?;
            let mut m2 = m.clone();
            wrapper_writes::<Box<[usize]>>("Box<[usize]>", &mut words.clone().into_boxed_slice(), &mut m2, &|b| read(b, 192), true, st)?;
            let mut m2 = m.clone();
            let mut w2 = words.clone();
            wrapper_writes::<&mut [usize]>("&mut [usize]", &mut &mut w2[..], &mut m2, &|b| read(b, 192), true, st)?;
            stack("Box<[usize]>", words.into_boxed_slice(), 192, st)
        }
        _ => {
            // bit vectors and slices behind pointers
            let n = 70;
            let m = model(n, |i| pat(p, i, n));
            let bv = make_bits(&m);
            let sl = bv.slice(..);
            wrapper_reads("&BitSlice", &&sl, &m, true, st)?;
            wrapper_reads("Rc<BitSlice>", &Rc::new(sl.clone()), &m, true, st)?;
            wrapper_reads("Box<BitSlice>", &Box::new(bv.slice(0..n)), &m, true, st)?;
            let mut m2 = m.clone();
            let mut b2 = bv.clone();
            wrapper_writes::<&mut BitVec>("&mut BitVec", &mut &mut b2, &mut m2, &|b| read(&***b, n), true, st)?;
            let mut m2 = m.clone();
            wrapper_writes::<Box<BitVec>>("Box<BitVec>", &mut Box::new(bv.clone()), &mut m2, &|b| read(&***b, n), true, st)?;
            let mut m2 = m.clone();
            let mut b2 = bv.clone();
            wrapper_writes::<Box<BitSlice<&mut Box<[usize]>>>>("Box<BitSlice>", &mut Box::new(b2.slice_mut(..)), &mut m2, &|b| read(&**b, n), true, st)?;
            ensure!(read(&*b2, n) == m2, "Box<BitSlice>: vector contents");
            check_vec(&bv, &m, 1)
        }
    }
}
fn c08_long_cases(t: Tier, f: Feed) {
    for words in [16u64, 17, 64, 65, 1023, 1024, 1025, 1 << 14, 1 << 16, (1 << 18) + 1, 1 << 20, (1 << 25) + 1, 1 << 26, (1 << 26) + 1].into_iter().chain(t.pick(vec![], vec![(1 << 27) + 1, 1 << 28])) {
        for p in 0..2 {
            if !f(&[words, p]) {
                return;
            }
        }
    }
}
/// Long arrays of words, at all power-of-two boundaries.
fn c08_long(c: &[u64], st: &mut St) -> Res {
    let words = c[0] as usize;
    let n = words * 64;
    let fill = if c[1] == 1 && words < 1 << 21 { usize::MAX } else { 0 };
    let mut a = vec![fill; words].into_boxed_slice();
    for (x, i) in crate::bits::big_probes(n).into_iter().enumerate() {
        for op in 0..6u64 {
            let before = a[i / 64];
            ensure_eq!(before >> (i % 64) & 1 == 1, a.get_bit(i), "{words} words: get_bit({i})");
            ensure_eq!(before >> (i % 64) & 1 == 1, unsafe { (&a).get_bit_unchecked(i) }, "{words} words: get_bit_unchecked({i})");
            let s: &mut [usize] = &mut a;
            match (op, x % 2) {
                (0, 0) => s.set_bit(i, false),
                (1, 0) => s.set_bit(i, true),
                (2, 0) => s.flip_bit(i),
                (3, 0) => unsafe { s.set_bit_unchecked(i, false) },
                (4, 0) => unsafe { s.set_bit_unchecked(i, true) },
                (5, 0) => unsafe { s.flip_bit_unchecked(i) },
                (0, _) => a.set_bit(i, false),
                (1, _) => a.set_bit(i, true),
                (2, _) => a.flip_bit(i),
                (3, _) => unsafe { a.set_bit_unchecked(i, false) },
                (4, _) => unsafe { a.set_bit_unchecked(i, true) },
                _ => unsafe { a.flip_bit_unchecked(i) },
            }
            let bit = 1usize << (i % 64);
            let want = match op % 3 {
                0 => before & !bit,
                1 => before | bit,
                _ => before ^ bit,
            };
            ensure_eq!(want, a[i / 64], "{words} words: word {} after op {op} at {i}", i / 64);
            for near in [0, (i / 64).wrapping_sub(1), i / 64 + 1, words - 1] {
                ensure!(near >= words || near == i / 64 || a[near] == fill, "{words} words: word {near} after op {op} at {i}");
            }
            st.step(3);
        }
        a[i / 64] = fill;
        st.state(hash_words(c[1], &[words, i]));
    }
    for i in beyond(n, 0) {
        ensure!(panics(|| a.get_bit(i)) && panics(|| a.set_bit(i, true)) && panics(|| a.set_bit(i, false)) && panics(|| a.flip_bit(i)), "{words} words: an access at {i} did not panic");
        st.step(4);
    }
    st.traces += 1;
    Ok(())
}
pub fn c08() -> Vec<Space> {
    vec![
        Space { name: "integers", about: "u8 and u16: every value; u32, u64, usize: every value with at most three ones or zeros, all prefixes, periodic values; every bit, every operation", cases: c08_int_cases, run: c08_int, serial: false },
        Space { name: "words", about: "arrays of words: every bit, every operation over eight patterns", cases: c08_arr_cases, run: c08_arr, serial: false },
        Space { name: "long", about: "arrays of up to 2^26 words, all power-of-two boundaries, every operation, rejected indices", cases: c08_long_cases, run: c08_long, serial: false },
        Space { name: "wrappers", about: "references, boxes and reference-counted pointers, also stacked, over every kind of storage: every bit, every operation, rejected indices", cases: c08_wrap_cases, run: c08_wrap, serial: false },
    ]
}
