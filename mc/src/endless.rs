//! Slices and pointers over storage that has a bit for every index: C02 to C08 beyond the sizes that
//! fit into memory.
use crate::engine::*;
use crate::slices::{bound, forms, iterator_obeys, normal, BA};
use crate::util::beyond;
use crate::{ensure, ensure_eq};
use std::rc::Rc;
use succinct_neo::bit_vec::slice::Iter;
use succinct_neo::bit_vec::{BitGet, BitModify, BitSlice};

type Feed<'a> = &'a mut dyn FnMut(&[u64]) -> bool;

/// Bit i is a fixed function of i, except where it was written.
#[derive(Clone, Debug, Default, PartialEq)]
struct Endless {
    written: Vec<(usize, bool)>,
}
fn native(i: usize) -> bool {
    mix(77, i as u64) & 1 == 1
}
impl Endless {
    fn at(&self, i: usize) -> bool {
        self.written.iter().find(|w| w.0 == i).map_or(native(i), |w| w.1)
    }
    fn put(&mut self, i: usize, v: bool) {
        self.written.retain(|w| w.0 != i);
        if v != native(i) {
            self.written.push((i, v));
        }
    }
}
impl BitGet for Endless {
    unsafe fn get_bit_unchecked(&self, i: usize) -> bool {
        self.at(i)
    }
    fn get_bit(&self, i: usize) -> bool {
        self.at(i)
    }
}
impl BitModify for Endless {
    unsafe fn set_bit_unchecked(&mut self, i: usize, v: bool) {
        self.put(i, v)
    }
    fn set_bit(&mut self, i: usize, v: bool) {
        self.put(i, v)
    }
    unsafe fn flip_bit_unchecked(&mut self, i: usize) {
        self.put(i, !self.at(i))
    }
    fn flip_bit(&mut self, i: usize) {
        self.put(i, !self.at(i))
    }
}

/// Around all powers of two, and the largest.
fn marks() -> Vec<usize> {
    let mut v = vec![0, usize::MAX, usize::MAX - 1, usize::MAX - 63, usize::MAX - 64];
    for k in 0..64 {
        let p = 1usize << k;
        v.extend([p - 1, p, p + 1]);
    }
    v.sort_unstable();
    v.dedup();
    v
}
/// Indices below n: around all powers of two and at the end.
fn inside(n: usize) -> Vec<usize> {
    let mut v = marks();
    v.extend([n / 2, n.wrapping_sub(1), n.wrapping_sub(2), n.wrapping_sub(64)]);
    v.retain(|&i| i < n);
    v.sort_unstable();
    v.dedup();
    v
}
fn mark_cases(_t: Tier, f: Feed) {
    for i in 0..marks().len() as u64 {
        if !f(&[i]) {
            return;
        }
    }
}
/// All accesses to bit i of something, which is bit `at` of the storage.
fn access<B: BA + ?Sized>(b: &mut B, i: usize, at: usize, store: &dyn Fn(&B) -> Endless, what: &dyn Fn() -> String) -> Res {
    ensure_eq!(native(at), b.get_bit(i), "{}: get_bit({i})", what());
    ensure_eq!(native(at), unsafe { b.get_bit_unchecked(i) }, "{}: get_bit_unchecked({i})", what());
    let mut m = Endless::default();
    let v = native(at);
    for op in 0..8 {
        match op {
            0 => b.flip_bit(i),
            1 => unsafe { b.flip_bit_unchecked(i) },
            2 => b.set_bit(i, !v),
            3 => b.set_bit(i, v),
            4 => unsafe { b.set_bit_unchecked(i, !v) },
            5 => unsafe { b.set_bit_unchecked(i, v) },
            6 => b.set_bit(i, !v),
            _ => b.flip_bit(i),
        }
        m.put(at, if op % 2 == 0 { !v } else { v });
        let s = store(b);
        ensure!(s == m, "{}: bits that differ after operation {op} at {i} (bit {at} of the storage): {:?} instead of {:?}", what(), s.written, m.written);
    }
    Ok(())
}

// ------------------------------------------------------------------ C02

fn c02(c: &[u64], st: &mut St) -> Res {
    let ms = marks();
    let s = ms[c[0] as usize];
    for &e in ms.iter().filter(|&&e| e >= s && (e < s.saturating_add(70) || e % 4 == 0 || e > usize::MAX - 70)) {
        let n = e - s;
        st.state(hash_words(1, &[s, e]));
        let mut sl = BitSlice::new(Endless::default(), s, e);
        for i in beyond_any(n, s) {
            ensure!(panics(|| sl.get_bit(i)), "get_bit({i}) on {s}..{e} of endless storage did not panic");
            ensure!(panics(|| sl.get(i)), "get({i}) on {s}..{e} of endless storage did not panic");
            ensure!(panics(|| sl.set_bit(i, true)), "set_bit({i}, true) on {s}..{e} of endless storage did not panic");
            ensure!(panics(|| sl.set(i, false)), "set({i}, false) on {s}..{e} of endless storage did not panic");
            ensure!(panics(|| sl.flip_bit(i)), "flip_bit({i}) on {s}..{e} of endless storage did not panic");
            ensure!(panics(|| sl.slice(..).get_bit(i)), "get_bit({i}) on a slice of {s}..{e} of endless storage did not panic");
            ensure!(panics(|| sl.slice_mut(..).flip(i)), "flip({i}) on a slice of {s}..{e} of endless storage did not panic");
            ensure!(sl.backing().written.is_empty(), "rejected access at {i} on {s}..{e} of endless storage changed bits {:?}", sl.backing().written);
            st.step(7);
        }
    }
    Ok(())
}
/// Some indices from n on, also where adding the start of the window wraps around.
fn beyond_any(n: usize, s: usize) -> Vec<usize> {
    if n > usize::MAX - 5000 {
        return (n..=usize::MAX).rev().take(4).chain([n]).collect();
    }
    let v = beyond(n, s);
    let keep = v.len() / 12 + 1;
    let mut few: Vec<usize> = v.iter().copied().step_by(keep).collect();
    few.extend([n, n + 1, usize::MAX - s, (usize::MAX - s).wrapping_add(1), usize::MAX]);
    few.retain(|&i| i >= n);
    few
}

// ------------------------------------------------------------------ C03

fn c03(c: &[u64], st: &mut St) -> Res {
    let ms = marks();
    let s = ms[c[0] as usize];
    for &e in ms.iter().filter(|&&e| e >= s) {
        let n = e - s;
        st.state(hash_words(2, &[s, e]));
        let mut sl = BitSlice::new(Endless::default(), s, e);
        ensure_eq!((n, n == 0), (sl.len(), sl.is_empty()), "length and emptiness of {s}..{e} of endless storage");
        let is = inside(n);
        for &i in &is {
            access(&mut sl, i, s + i, &|b| b.backing().clone(), &|| format!("{s}..{e} of endless storage"))?;
            ensure_eq!(native(s + i), sl.get(i), "get({i}) on {s}..{e} of endless storage");
            st.step(11);
        }
        // slices of it that start and end around powers of two
        for (k, &a) in is.iter().enumerate().filter(|x| x.0 % 7 == 0 || x.0 + 2 > is.len()) {
            for (l, &b) in is.iter().chain([&n]).enumerate().skip(k).filter(|x| x.0 % 5 == 0 || x.0 + 1 > is.len()) {
                for (w, r) in forms(a, b, n).into_iter().enumerate() {
                    let what = || format!("{r:?} of {s}..{e} of endless storage");
                    let last = (b - a).wrapping_sub(1);
                    for unchecked in [false, true] {
                        let sub = if unchecked { unsafe { sl.slice_unchecked(r) } } else { sl.slice(r) };
                        ensure_eq!(b - a, sub.len(), "length of {}", what());
                        if b > a {
                            ensure_eq!((native(s + a), native(s + b - 1)), (sub.get_bit(0), sub.get_bit(last)), "first and last bit of {}", what());
                        }
                        let mut sub = if unchecked { unsafe { sl.slice_unchecked_mut(r) } } else { sl.slice_mut(r) };
                        ensure_eq!(b - a, sub.len(), "length of the mutable {}", what());
                        if b > a && (w + k + l) % 3 == 0 {
                            access(&mut sub, 0, s + a, &|b| (*b.backing()).clone(), &what)?;
                            access(&mut sub, last, s + b - 1, &|b| (*b.backing()).clone(), &what)?;
                        }
                    }
                    st.step(4);
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C04

fn c04(c: &[u64], st: &mut St) -> Res {
    let ms = marks();
    let s = ms[c[0] as usize];
    for &e in ms.iter().filter(|&&e| e >= s && (e < s.saturating_add(70) || e % 4 == 0 || e > usize::MAX - 70)) {
        let n = e - s;
        st.state(hash_words(6, &[s, e]));
        let mut sl = BitSlice::new(Endless::default(), s, e);
        let mut vals = vec![0, 1, n / 2, n.saturating_sub(1), n, n.saturating_add(1), usize::MAX - s, (usize::MAX - s).saturating_add(1), usize::MAX - 1, usize::MAX];
        vals.sort_unstable();
        vals.dedup();
        for (sk, ek) in (0..3).flat_map(|a| (0..3).map(move |b| (a, b))) {
            for &a in &vals[..if sk == 2 { 1 } else { vals.len() }] {
                for &b in &vals[..if ek == 2 { 1 } else { vals.len() }] {
                    let r = (bound(sk, a), bound(ek, b));
                    let (lo, hi) = normal(r, n);
                    let good = lo <= hi && hi <= n as u128;
                    ensure_eq!(!good, panics(|| sl.slice(r).len()), "slice({r:?}) of {s}..{e} of endless storage panics");
                    ensure_eq!(!good, panics(|| sl.slice_mut(r).len()), "slice_mut({r:?}) of {s}..{e} of endless storage panics");
                    st.step(2);
                    st.outcome(good as u64);
                }
            }
        }
        ensure!(sl.backing().written.is_empty(), "slicing {s}..{e} of endless storage changed bits {:?}", sl.backing().written);
    }
    Ok(())
}

// ------------------------------------------------------------------ C05

fn c05(c: &[u64], st: &mut St) -> Res {
    let ms = marks();
    let s = ms[c[0] as usize];
    for &e in ms.iter().filter(|&&e| e >= s) {
        let n = e - s;
        st.state(hash_words(3, &[s, e]));
        let mut sl = BitSlice::new(Endless::default(), s, e);
        for k in inside(n) {
            let what = || format!("split at {k} of {s}..{e} of endless storage");
            let (l, r) = sl.split_at(k);
            ensure_eq!((k, n - k), (l.len(), r.len()), "lengths of the halves, {}", what());
            if k > 0 {
                ensure_eq!((native(s), native(s + k - 1)), (l.get(0), l.get(k - 1)), "first and last bit of the left half, {}", what());
            }
            ensure_eq!((native(s + k), native(e - 1)), (r.get(0), r.get(n - k - 1)), "first and last bit of the right half, {}", what());
            let (mut l, mut r) = sl.split_at_mut(k);
            ensure_eq!((k, n - k), (l.len(), r.len()), "lengths of the mutable halves, {}", what());
            let mut m = Endless::default();
            if k > 0 {
                l.flip(k - 1);
                m.put(s + k - 1, !native(s + k - 1));
            }
            r.flip(0);
            m.put(s + k, !native(s + k));
            if k > 1 {
                l.flip_bit(0);
                m.put(s, !native(s));
            }
            if n - k > 1 {
                r.set(n - k - 1, !native(e - 1));
                m.put(e - 1, !native(e - 1));
            }
            ensure!(sl.backing() == &m, "bits that differ after writing through both halves, {}: {:?} instead of {:?}", what(), sl.backing().written, m.written);
            sl = BitSlice::new(Endless::default(), s, e);
            st.step(12);
        }
        if n < 1 << 20 || n % 4 == 0 {
            for k in beyond_any(n, s) {
                ensure!(panics(|| sl.split_at(k).0.len()), "split_at({k}) of {s}..{e} of endless storage did not panic");
                ensure!(panics(|| sl.split_at_mut(k).0.len()), "split_at_mut({k}) of {s}..{e} of endless storage did not panic");
                st.step(2);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C06

fn c06(c: &[u64], st: &mut St) -> Res {
    let ms = marks();
    let s = ms[c[0] as usize];
    // short windows
    for n in 0..=4.min(usize::MAX - s) {
        let e = s + n;
        let want: Vec<bool> = (s..e).map(native).collect();
        let sl = BitSlice::new(Endless::default(), s, e);
        st.state(hash_words(4, &[s, e]));
        let d = |w: &str| format!("{w} over {s}..{e} of endless storage");
        iterator_obeys(&mut |f| f(sl.iter()), &want, &d("iter()"), true, st)?;
        iterator_obeys(&mut |f| f((&sl).into_iter()), &want, &d("(&slice).into_iter()"), true, st)?;
        iterator_obeys(&mut |f| f(sl.clone().into_iter()), &want, &d("into_iter()"), true, st)?;
        iterator_obeys(&mut |f| f(Iter::new(Endless::default(), s, e)), &want, &d("Iter::new"), true, st)?;
        iterator_obeys(&mut |f| f(sl.slice(..).into_iter()), &want, &d("nested slice"), true, st)?;
    }
    // the first elements of longer ones
    for &e in ms.iter().filter(|&&e| e > s) {
        let n = e - s;
        let sl = BitSlice::new(Endless::default(), s, e);
        st.state(hash_words(4, &[s, e]));
        for skip in 0..3.min(n) {
            let mut it = sl.iter();
            let mut at = 0;
            while at < 12.min(n) {
                ensure_eq!((n - at, (n - at, Some(n - at))), (it.len(), it.size_hint()), "remaining length after {at} of {s}..{e} of endless storage");
                let to = at + skip;
                ensure_eq!((to < n).then(|| native(s + to)), it.nth(skip), "element {to} of {s}..{e} of endless storage");
                at = to + 1;
                st.step(1);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C07

fn c07(c: &[u64], st: &mut St) -> Res {
    let ms = marks();
    let s = ms[c[0] as usize];
    for &t in &ms {
        for n in 0..=6 {
            if n > usize::MAX - s || n > usize::MAX - t {
                continue;
            }
            st.state(hash_words(5, &[s, t, n]));
            // the same contents, then one bit different at a time
            let mut b = BitSlice::new(Endless::default(), t, t + n);
            let a = BitSlice::new(Endless::default(), s, s + n);
            for i in 0..n {
                b.set(i, native(s + i));
            }
            ensure!(a == b && b == a, "{s}..{} and {t}..{} of endless storage with the same bits are not equal", s + n, t + n);
            for i in 0..n {
                b.flip(i);
                ensure!(a != b && b != a, "{s}..{} and {t}..{} of endless storage are equal though bit {i} differs", s + n, t + n);
                b.flip(i);
            }
            st.step(2 + 2 * n as u64);
            if t + n < usize::MAX {
                let longer = BitSlice::new(b.backing().clone(), t, t + n + 1);
                ensure!(a != longer && longer != a, "{s}..{} and {t}..{} of endless storage are equal though one is longer", s + n, t + n + 1);
                st.step(2);
            }
        }
        // long windows of different lengths
        for &e in &[usize::MAX, 1 << 63, 1 << 33] {
            let same: Vec<usize> = (0..3).filter(|&i| s.max(t) <= usize::MAX - i && s + i < e && t + i < e).collect();
            if s < e && t < e && (s != t) && same.len() == 3 {
                let a = BitSlice::new(Endless::default(), s, e);
                let mut b = BitSlice::new(Endless::default(), t, e);
                b.set(0, !native(s));
                ensure!(a != b && b != a, "{s}..{e} and {t}..{e} of endless storage are equal");
                st.step(2);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C08

fn c08(c: &[u64], st: &mut St) -> Res {
    let i = marks()[c[0] as usize];
    st.state(i as u64);
    let v = Endless::default();
    macro_rules! reads {
        ($name:literal, $e:expr) => {{
            let w = $e;
            ensure_eq!(native(i), BitGet::get_bit(&w, i), "{}: get_bit({i})", $name);
            ensure_eq!(native(i), unsafe { BitGet::get_bit_unchecked(&w, i) }, "{}: get_bit_unchecked({i})", $name);
            st.step(2);
        }};
    }
    reads!("&", &v);
    reads!("&&", &&v);
    reads!("&mut", &mut v.clone());
    reads!("Box", Box::new(v.clone()));
    reads!("Rc", Rc::new(v.clone()));
    reads!("Rc<Box>", Rc::new(Box::new(v.clone())));
    reads!("Box<Rc>", Box::new(Rc::new(v.clone())));
    reads!("&Rc", &Rc::new(v.clone()));
    reads!("Rc<&>", Rc::new(&v));
    access::<&mut Endless>(&mut &mut v.clone(), i, i, &|b| (**b).clone(), &|| "&mut".into())?;
    access::<&mut &mut Endless>(&mut &mut &mut v.clone(), i, i, &|b| (***b).clone(), &|| "&mut &mut".into())?;
    access::<Box<Endless>>(&mut Box::new(v.clone()), i, i, &|b| (**b).clone(), &|| "Box".into())?;
    access::<Box<&mut Endless>>(&mut Box::new(&mut v.clone()), i, i, &|b| (**b).clone(), &|| "Box<&mut>".into())?;
    access::<&mut Box<Endless>>(&mut &mut Box::new(v.clone()), i, i, &|b| (***b).clone(), &|| "&mut Box".into())?;
    st.step(50);
    Ok(())
}

fn space(about: &'static str, cases: fn(Tier, Feed), run: fn(&[u64], &mut St) -> Res) -> Space {
    Space { name: "endless", about, cases, run, serial: false }
}
pub fn of(id: &str) -> Option<Space> {
    Some(match id {
        "C02" => space("windows of storage with a bit for every index, bounds around all powers of two: rejected indices up to the largest", mark_cases, c02),
        "C03" => space("windows of storage with a bit for every index, bounds around all powers of two up to the largest: every access around all powers of two, slices of slices", mark_cases, c03),
        "C04" => space("windows of storage with a bit for every index, bounds around all powers of two: every kind of bound at the ends, the middle, beyond and where the sum with the start wraps", mark_cases, c04),
        "C05" => space("windows of storage with a bit for every index, bounds around all powers of two: splits around all powers of two, rejected indices", mark_cases, c05),
        "C06" => space("windows of storage with a bit for every index around all powers of two: short ones in full, the first elements of all others", mark_cases, c06),
        "C07" => space("short windows of storage with a bit for every index around all powers of two, each with each: equal, one bit different, one longer", mark_cases, c07),
        "C08" => space("pointers to storage with a bit for every index: every access around all powers of two", mark_cases, c08),
        _ => return None,
    })
}
