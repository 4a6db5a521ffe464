//! The public iterators that cut images, columns and streams into the parts that are processed in parallel.
use crate::sym;
use gfwx::processing::image::Image;
use gfwx::processing::{DoubleOverlappingChunksIterator, OverlappingChunksIterator, VariableChunksIterator};

fn any(lo: u64, hi: u64) -> usize {
    // as narrow as possible, which the solver likes better
    sym::u(if hi < 64 { 6 } else if hi < 65536 { 16 } else { 64 }, lo, hi) as usize
}

/// Blocks of an image of any size: every cell of every channel belongs to exactly one block, in raster order.
/// params: 0/1 = largest width/height, 2 = channels, 3 = block exponent, 4 = step exponent, 5 = 1 also where the cells are
#[no_mangle]
pub fn h_split_image() {
    let w = any(1, sym::param(0) as u64);
    let h = any(1, sym::param(1) as u64);
    let ch = sym::param(2) as usize;
    let step = 1usize << sym::param(4);
    let chunk = step << sym::param(3);
    let access = sym::param(5) == 1;
    let mut data = vec![0u16; (sym::param(0) * sym::param(1) * sym::param(2)) as usize];
    let n = if access { w * h * ch } else { data.len() };
    let base = data.as_ptr() as usize;
    // any cell
    let (x, y, c) = (any(0, sym::param(0) as u64 - 1), any(0, sym::param(1) as u64 - 1), any(0, ch as u64 - 1));
    sym::assume((x < w) & (y < h));
    let mut owners = 0u32;
    let (mut ex, mut ey, mut ec) = (0usize, 0usize, 0usize);
    let mut ok = true;
    let mut place = true;
    for b in Image::from_slice(&mut data[..n], (w, h), ch).into_chunks_mut(chunk, step) {
        // raster order, channel after channel
        sym::check(ec < ch, 1801);
        let (xe, ye) = (if ex + chunk < w { ex + chunk } else { w }, if ey + chunk < h { ey + chunk } else { h });
        ok &= (b.x_range.0 == ex) & (b.x_range.1 == xe) & (b.y_range.0 == ey) & (b.y_range.1 == ye) & (b.channel == ec) & (b.step == step);
        let inside = (c == b.channel) & (x >= b.x_range.0) & (x < b.x_range.1) & (y >= b.y_range.0) & (y < b.y_range.1);
        owners += inside as u32;
        // the block's own first cell is always at hand
        if access {
            let p = &b[(b.y_range.0, b.x_range.0)] as *const u16 as usize;
            place &= p == base + 2 * ((ec * h + ey) * w + ex);
        }
        ex += chunk;
        if ex >= w {
            ex = 0;
            ey += chunk;
            if ey >= h {
                ey = 0;
                ec += 1;
            }
        }
    }
    sym::check(ok, 1802);
    sym::check(owners == 1, 1803);
    sym::check(place, 1804);
    sym::check((ec == ch) & (ex == 0) & (ey == 0), 1805);
    sym::reach(1);
}

/// Access to a cell through a block: the block's own cells of its level (and its first cell) can be written, cells of the
/// level that belong to other blocks cannot even be read, everything else can be read; an access that is granted goes to
/// that cell. params: 0 = width, 1 = height, 2 = channels, 3 = block exponent, 4 = step exponent
#[no_mangle]
pub fn h_split_access() {
    let (w, h, ch) = (sym::param(0) as usize, sym::param(1) as usize, sym::param(2) as usize);
    let step = 1usize << sym::param(4);
    let chunk = step << sym::param(3);
    let mut data = vec![0u16; w * h * ch];
    let base = data.as_ptr() as usize;
    let (x, y) = (any(0, w as u64 - 1), any(0, h as u64 - 1));
    let blocks: Vec<_> = Image::from_slice(&mut data, (w, h), ch).into_chunks_mut(chunk, step).collect();
    let k = sym::choose(blocks.len() as u64) as usize;
    let write = sym::choose(2) == 1;
    for (i, mut b) in blocks.into_iter().enumerate() {
        if i != k {
            continue;
        }
        let own = (x >= b.x_range.0) & (x < b.x_range.1) & (y >= b.y_range.0) & (y < b.y_range.1);
        let level = (x % step == 0) & (y % step == 0) & ((x | y) & step != 0) | (x == b.x_range.0) & (y == b.y_range.0);
        let at = base + 2 * ((b.channel * h + y) * w + x);
        let granted = if write { own & level } else { own | !level };
        if granted {
            let p = if write { &mut b[(y, x)] as *mut u16 as usize } else { &b[(y, x)] as *const u16 as usize };
            sym::check(p == at, 1811);
            let q = if write { unsafe { b.get_unchecked_mut(y, x) as *mut u16 as usize } } else { unsafe { b.get_unchecked(y, x) as *const u16 as usize } };
            sym::check(q == at, 1812);
            if write {
                b[(y, x)] = 7;
                sym::check(b[(y, x)] == 7, 1813);
            }
            sym::reach(1);
        } else {
            sym::reach(2);
            sym::allow_panic(true);
            if write {
                b[(y, x)] = 7;
            } else {
                sym::observe(b[(y, x)] as u64);
            }
            // refused: the line above does not come back
            sym::check(false, 1814);
        }
    }
}

/// Any coordinates at all, cells outside the image included: refused, or a cell of the data.
/// params as in h_split_access, 5 = largest coordinate exponent
#[no_mangle]
pub fn h_split_far() {
    let (w, h, ch) = (sym::param(0) as usize, sym::param(1) as usize, sym::param(2) as usize);
    let step = 1usize << sym::param(4);
    let chunk = step << sym::param(3);
    let mut data = vec![0u16; w * h * ch];
    let base = data.as_ptr() as usize;
    let top = u64::MAX >> (64 - sym::param(5));
    let (x, y) = (any(0, top), any(0, top));
    let k = sym::choose(2) as usize;
    let write = sym::choose(2) == 1;
    for (i, mut b) in Image::from_slice(&mut data, (w, h), ch).into_chunks_mut(chunk, step).enumerate() {
        if i != k {
            continue;
        }
        sym::allow_panic(true);
        let p = if write { &mut b[(y, x)] as *mut u16 as usize } else { &b[(y, x)] as *const u16 as usize };
        sym::allow_panic(false);
        sym::check((p >= base) & (p < base + 2 * w * h * ch) & (p & 1 == base & 1), 1821);
        // inside the block's channel, as long as the position does not exceed 64 bits
        let lo = base + 2 * b.channel * w * h;
        if sym::param(5) < 50 {
            sym::check((p >= lo) & (p < lo + 2 * w * h), 1824);
        }
        if write {
            sym::check(p == lo + 2 * (y * w + x), 1822);
            sym::check((x >= b.x_range.0) & (x < b.x_range.1) & (y >= b.y_range.0) & (y < b.y_range.1), 1823);
        }
        sym::reach(1);
    }
}

/// Chunk i of a slice of n elements cut into pieces of `step`: offset and length (nothing beyond the end)
fn piece(i: isize, n: usize, step: usize) -> (usize, usize) {
    if i < 0 {
        return (0, 0);
    }
    let a = i as usize * step;
    if a >= n {
        (0, 0)
    } else {
        (a, if n - a < step { n - a } else { step })
    }
}

fn is<T>(s: &[T], base: usize, p: (usize, usize)) -> bool {
    // an empty part has no place
    (s.len() == p.1) & ((p.1 == 0) | (s.as_ptr() as usize == base + p.0 * std::mem::size_of::<T>()))
}

/// Slices of any length in steps of any size: the odd pieces come out one by one, each with its neighbours.
/// params: 0 = largest length, 1 = largest step, 2 = 1 two neighbours on each side
#[no_mangle]
pub fn h_split_overlap() {
    let n = any(0, sym::param(0) as u64);
    let step = any(1, sym::param(1) as u64);
    let double = sym::param(2) == 1;
    let mut data = vec![0u16; sym::param(0) as usize];
    let base = data.as_ptr() as usize;
    let p = any(0, sym::param(0) as u64);
    sym::assume(p < n);
    let mut visited = 0u32;
    let mut ok = true;
    let mut m = 1isize;
    let s = &mut data[..n];
    if double {
        for c in DoubleOverlappingChunksIterator::from_slice(s, step) {
            ok &= is(c.prev_left, base, piece(m - 3, n, step));
            ok &= is(c.left, base, piece(m - 1, n, step));
            ok &= is(c.middle, base, piece(m, n, step)) & (c.middle.len() > 0);
            ok &= is(c.right, base, piece(m + 1, n, step));
            ok &= is(c.next_right, base, piece(m + 3, n, step));
            let at = c.middle.as_ptr() as usize - base;
            visited += ((2 * p >= at) & (2 * p < at + 2 * c.middle.len())) as u32;
            m += 2;
        }
    } else {
        for (left, middle, right) in OverlappingChunksIterator::from_slice(s, step) {
            ok &= is(left, base, piece(m - 1, n, step));
            ok &= is(middle, base, piece(m, n, step)) & (middle.len() > 0);
            ok &= is(right, base, piece(m + 1, n, step));
            let at = middle.as_ptr() as usize - base;
            visited += ((2 * p >= at) & (2 * p < at + 2 * middle.len())) as u32;
            m += 2;
        }
    }
    sym::check(ok, 1831);
    // the pieces seen are all the odd ones
    sym::check(piece(m, n, step).1 == 0, 1832);
    sym::check(visited == (p / step % 2) as u32, 1833);
    sym::observe(m as u64);
    sym::reach(1);
}

/// Blocks of a stream by a list of sizes: consecutive, each of its size; the last one may be cut short by the end.
/// params: 0 = largest length, 1 = number of sizes
#[no_mangle]
pub fn h_split_variable() {
    let n = any(0, sym::param(0) as u64);
    let k = sym::param(1) as usize;
    let data = vec![0u8; sym::param(0) as usize];
    let base = data.as_ptr() as usize;
    let mut sizes = vec![0usize; k];
    for s in sizes.iter_mut() {
        // a size read from a stream: any 32-bit count of words
        *s = sym::u(32, 0, 0xffff_ffff) as usize * 4;
    }
    let mut at = 0usize;
    let mut i = 0;
    let mut ok = true;
    for b in VariableChunksIterator::new(&data[..n], &sizes) {
        sym::check(i < k, 1841);
        let left = n - at;
        let len = if sizes[i] < left { sizes[i] } else { left };
        ok &= is(b, base, (at, len));
        at += len;
        i += 1;
    }
    sym::check(ok, 1842);
    // it ends only when the sizes or the data are used up
    sym::check((i == k) | (at == n), 1843);
    sym::observe(at as u64);
    sym::reach(1);
}
