use crate::engine::*;
use succinct_neo::bit_vec::{BitGet, BitModify, BitSlice, BitVec};

/// Background patterns; every one is a fixed function of the position.
pub const PATTERNS: u64 = 8;
pub fn pat(id: u64, i: usize, n: usize) -> bool {
    match id {
        0 => false,
        1 => true,
        2 => i % 2 == 0,
        3 => i % 3 == 0,
        4 => (i / 64) % 2 == 1,
        5 => i == 0,
        6 => i + 1 == n,
        7 => (i.wrapping_mul(0x9E37_79B9) >> 7) & 3 == 0,
        _ => unreachable!(),
    }
}
pub fn make(n: usize, f: impl Fn(usize) -> bool) -> BitVec {
    let mut bv = BitVec::new(n);
    for i in 0..n {
        if f(i) {
            bv.set(i, true);
        }
    }
    bv
}
pub fn make_bits(m: &[bool]) -> BitVec {
    make(m.len(), |i| m[i])
}
pub fn model(n: usize, f: impl Fn(usize) -> bool) -> Vec<bool> {
    (0..n).map(f).collect()
}
/// A bit vector over given words, without writing bit by bit; for very large vectors.
pub fn from_words(words: Vec<usize>, n: usize) -> BitVec {
    assert!(words.len() == n.div_ceil(64));
    let mut bv = BitVec::new(n);
    *bv = BitSlice::new(words.into_boxed_slice(), 0, n);
    bv
}
pub fn hash_bits(seed: u64, m: &[bool]) -> u64 {
    let mut h = mix(seed, m.len() as u64);
    for c in m.chunks(64) {
        h = mix(h, c.iter().enumerate().fold(0u64, |a, (i, &b)| a | (b as u64) << i));
    }
    h
}
pub fn show(m: &[bool]) -> String {
    if m.len() <= 140 {
        m.iter().map(|&b| if b { '1' } else { '0' }).collect()
    } else {
        format!("{} bits, ones at {:?}...", m.len(), m.iter().enumerate().filter(|x| *x.1).map(|x| x.0).take(20).collect::<Vec<_>>())
    }
}
/// Reads all bits with the checked accessor.
pub fn read<B: BitGet>(b: &B, n: usize) -> Vec<bool> {
    (0..n).map(|i| b.get_bit(i)).collect()
}

pub const WRITERS: u64 = 7;
pub fn set_by(bv: &mut BitVec, kind: u64, i: usize, v: bool) {
    match kind {
        0 => bv.set(i, v),
        1 => BitModify::set_bit(bv, i, v),
        2 => BitModify::set_bit(&mut **bv, i, v),
        3 => unsafe { bv.set_unchecked(i, v) },
        4 => unsafe { BitModify::set_bit_unchecked(bv, i, v) },
        5 => unsafe { BitModify::set_bit_unchecked(&mut **bv, i, v) },
        6 => AsMut::<BitSlice<Box<[usize]>>>::as_mut(bv).set(i, v),
        _ => unreachable!(),
    }
}
pub fn flip_by(bv: &mut BitVec, kind: u64, i: usize) {
    match kind {
        0 => bv.flip(i),
        1 => BitModify::flip_bit(bv, i),
        2 => BitModify::flip_bit(&mut **bv, i),
        3 => unsafe { bv.flip_unchecked(i) },
        4 => unsafe { BitModify::flip_bit_unchecked(bv, i) },
        5 => unsafe { BitModify::flip_bit_unchecked(&mut **bv, i) },
        6 => AsMut::<BitSlice<Box<[usize]>>>::as_mut(bv).flip(i),
        _ => unreachable!(),
    }
}
pub const READERS: u64 = 6;
pub fn get_by(bv: &BitVec, kind: u64, i: usize) -> bool {
    match kind {
        0 => bv.get(i),
        1 => bv.get_bit(i),
        2 => BitGet::get_bit(&**bv, i),
        3 => unsafe { bv.get_unchecked(i) },
        4 => unsafe { bv.get_bit_unchecked(i) },
        5 => AsRef::<BitSlice<Box<[usize]>>>::as_ref(bv).get_bit(i),
        _ => unreachable!(),
    }
}
/// op 0: set to zero, 1: set to one, 2: flip
pub fn apply(bv: &mut BitVec, op: u64, kind: u64, i: usize) {
    match op {
        0 => set_by(bv, kind, i, false),
        1 => set_by(bv, kind, i, true),
        _ => flip_by(bv, kind, i),
    }
}
pub fn apply_model(m: &mut [bool], op: u64, i: usize) {
    match op {
        0 => m[i] = false,
        1 => m[i] = true,
        _ => m[i] = !m[i],
    }
}
pub fn check_vec(bv: &BitVec, m: &[bool], readers: u64) -> Res {
    if bv.len() != m.len() || bv.is_empty() != m.is_empty() {
        return fail(format!("length {} (is_empty {}) instead of {}", bv.len(), bv.is_empty(), m.len()));
    }
    for r in 0..readers {
        for (i, &e) in m.iter().enumerate() {
            let a = get_by(bv, r, i);
            if a != e {
                return fail(format!("bit {i} of {} reads {a} through reader {r}, expected {e} (expected contents {})", m.len(), show(m)));
            }
        }
    }
    Ok(())
}

/// Enumerates all vectors over 0..k of length d.
pub fn words(k: u64, d: usize, f: &mut dyn FnMut(&[u64]) -> bool) -> bool {
    let mut w = vec![0u64; d];
    loop {
        if !f(&w) {
            return false;
        }
        let mut i = d;
        loop {
            if i == 0 {
                return true;
            }
            i -= 1;
            w[i] += 1;
            if w[i] < k {
                break;
            }
            w[i] = 0;
        }
    }
}

/// Indices at and beyond `len`, up to the largest, including those that wrap in address arithmetic.
pub fn beyond(len: usize, start: usize) -> Vec<usize> {
    let mut v = vec![len, len + 1, len + 2, len + 63, len + 64, len + 65, len + 127, len + 128, len + 4096];
    for k in 0..64 {
        let p = 1usize << k;
        v.extend([p - 1, p, p + 1]);
    }
    for d in 0..4 {
        v.push(usize::MAX - d);
        v.push((usize::MAX - d).wrapping_sub(start));
        v.push(0usize.wrapping_sub(start).wrapping_add(d));
        v.push((usize::MAX >> 6) + d);
        v.push((1usize << 63) + d);
        // wraps back to the front of the window when multiplied or offset
        v.push(((1u128 << 64) / 64) as usize + d);
        v.push(usize::MAX - 63 - d);
        v.push(usize::MAX - 64 - d);
    }
    v.retain(|&x| x >= len);
    v.sort_unstable();
    v.dedup();
    v
}
