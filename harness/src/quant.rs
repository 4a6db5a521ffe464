//! Quantisation.
use crate::sym;
use gfwx::quant::*;

fn level(x: usize, y: usize, w: usize, h: usize) -> Option<u32> {
    // the resolution level a coefficient belongs to: the largest power of two dividing both coordinates
    let mut l = 0;
    loop {
        let s = 1usize << l;
        if s >= w || s >= h {
            return None; // never quantised
        }
        if (x / s) % 2 == 1 || (y / s) % 2 == 1 {
            return Some(l);
        }
        l += 1;
    }
}

/// params: 0 = w, 1 = h, 2 = quality, 3 = min quality, 4 = max quality, 5 = lo, 6 = hi,
/// 7 = number of qualities from 2 on (0: just one)
/// One arbitrary sample per resolution level (chosen), zero elsewhere; the expected quality of its level is computed
/// independently.
#[no_mangle]
pub fn h_quant() {
    let (w, h) = (sym::param(0) as usize, sym::param(1) as usize);
    let (mut quality, min_q, max_q) = (sym::param(2) as i32, sym::param(3) as i32, sym::param(4) as i32);
    if sym::param(7) > 0 {
        quality += sym::choose(sym::param(7) as u64) as i32;
    }
    let (lo, hi) = (sym::param(5), sym::param(6));
    let at = sym::choose((w * h) as u64) as usize;
    let mut a = vec![0i16; w * h];
    let v = sym::i16_in(lo, hi);
    a[at] = v;
    quantize(&mut a.chunks_mut(w).collect::<Vec<_>>(), quality, min_q, max_q);
    let (x, y) = (at % w, at / w);
    // expected quality of this coefficient's level
    let mut q = max_q;
    if let Some(l) = level(x, y, w, h) {
        let mut k = quality;
        for _ in 0..l {
            k = (2 * k).min(max_q);
        }
        q = k.max(1).max(min_q);
        // once a level is not quantised, no coarser one is
        let mut j = quality;
        for _ in 0..=l {
            if j.max(1).max(min_q) >= max_q {
                q = max_q;
            }
            j = (2 * j).min(max_q);
        }
    }
    let mut other = 0i16;
    for i in 0..w * h {
        if i != at {
            other |= a[i];
        }
    }
    sym::check(other == 0, 901);
    let d = a[at];
    sym::observe(d as u16 as u64);
    let v32 = v as i32;
    if q >= max_q {
        sym::check(d == v, 902);
    } else {
        // |d| is the integer part of |v| q / max
        let (p, n) = ((d as i64).abs(), (v32 as i64).abs() * q as i64);
        sym::check((p * max_q as i64 <= n) & (n < (p + 1) * max_q as i64), 903);
        sym::check((d == 0) | ((d > 0) == (v > 0)), 904);
    }
    dequantize(&mut a.chunks_mut(w).collect::<Vec<_>>(), quality, min_q, max_q);
    other = 0;
    for i in 0..w * h {
        if i != at {
            other |= a[i];
        }
    }
    sym::check(other == 0, 905);
    let r = a[at];
    sym::observe(r as u16 as u64);
    if q >= max_q {
        sym::check(r == v, 906);
    } else {
        // zero stays zero, the sign is kept and the error is at most one quantisation step
        sym::check((d != 0) | (r == 0), 907);
        sym::check((d == 0) | ((r > 0) == (v > 0)), 908);
        let e = (r as i64 - v32 as i64).abs();
        let zero = d == 0;
        // reconstruction is at the middle of the cell: 2 |r - v| q <= max, and inside the dead zone |v| q < max
        sym::check(zero | ((e - 1) * 2 * q as i64 <= max_q as i64), 909);
        sym::check(!zero | (e * (q as i64) < max_q as i64), 910);
        // where a step is at least two values wide the reconstruction quantises to the same value again
        let mut b = vec![0i16; w * h];
        b[at] = r;
        quantize(&mut b.chunks_mut(w).collect::<Vec<_>>(), quality, min_q, max_q);
        sym::check((2 * q > max_q) | (b[at] == d), 911);
    }
    sym::reach(1);
}

/// Every sample is mapped on its own by its level's quality: `n` arbitrary samples from `first` on, the others patterned.
/// params as above, then 7 = first, 8 = n
#[no_mangle]
pub fn h_quant_all() {
    let (w, h) = (sym::param(0) as usize, sym::param(1) as usize);
    let (quality, min_q, max_q) = (sym::param(2) as i32, sym::param(3) as i32, sym::param(4) as i32);
    let (lo, hi) = (sym::param(5), sym::param(6));
    let (first, ns) = (sym::param(7) as usize, sym::param(8) as usize);
    let n = w * h;
    let mut a = vec![0i16; n];
    for i in 0..n {
        a[i] = (lo + (crate::cfg::hash(i as u64) % (hi - lo + 1) as u64) as i64) as i16;
    }
    for i in 0..ns {
        a[(first + i * 7) % n] = sym::i16_in(lo, hi);
    }
    let v = a.clone();
    quantize(&mut a.chunks_mut(w).collect::<Vec<_>>(), quality, min_q, max_q);
    let quantised = a.clone();
    dequantize(&mut a.chunks_mut(w).collect::<Vec<_>>(), quality, min_q, max_q);
    let (mut ok1, mut ok2) = (true, true);
    for i in 0..n {
        let mut q = max_q;
        if let Some(l) = level(i % w, i / w, w, h) {
            if quality.max(1).max(min_q) < max_q {
                q = (quality << l).min(max_q).max(1).max(min_q).min(max_q);
            }
        }
        let (d, r) = if q >= max_q {
            (v[i] as i32, v[i] as i32)
        } else {
            let d = v[i] as i32 * q / max_q;
            let half = ((d > 0) as i32 - (d < 0) as i32) * (max_q / 2);
            (d, (d * max_q + half) / q)
        };
        ok1 &= quantised[i] as i32 == d;
        ok2 &= a[i] == r as i16;
        sym::observe(quantised[i] as u16 as u64);
        sym::observe(a[i] as u16 as u64);
    }
    sym::check(ok1, 921);
    sym::check(ok2, 922);
    sym::reach(1);
}
