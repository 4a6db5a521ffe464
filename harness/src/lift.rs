use crate::sym;
use gfwx::lifting::*;

fn rows(v: &mut [i16], w: usize) -> Vec<&mut [i16]> {
    v.chunks_mut(w).collect()
}

/// params: width, height, filter (0 linear, 1 cubic), lo, hi, number of symbolic samples (the rest follow a pattern).
#[no_mangle]
pub fn h_lift_roundtrip() {
    let w = sym::param(0) as usize;
    let h = sym::param(1) as usize;
    let cubic = sym::param(2) == 1;
    let (lo, hi) = (sym::param(3), sym::param(4));
    let mut a = vec![0i16; w * h];
    for i in 0..w * h {
        a[i] = sym::i16_in(lo, hi);
    }
    let orig = a.clone();
    {
        let mut r = rows(&mut a, w);
        if cubic {
            lift_cubic(&mut r)
        } else {
            lift_linear(&mut r)
        }
    }
    for i in 0..w * h {
        sym::observe(a[i] as u16 as u64);
    }
    {
        let mut r = rows(&mut a, w);
        if cubic {
            unlift_cubic(&mut r)
        } else {
            unlift_linear(&mut r)
        }
    }
    sym::reach(1);
    for i in 0..w * h {
        sym::check(a[i] == orig[i], 701);
    }
}
