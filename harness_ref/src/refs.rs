//! Conformance with the original C++ implementation.
use crate::cfg::*;
use crate::sym;
use gfwx::*;

extern "C" {
    fn ref_compress(p: *const i64, image: *mut u8, transform: *const i32, out: *mut u8, cap: usize) -> i64;
    fn ref_compress_meta(p: *const i64, image: *mut u8, transform: *const i32, out: *mut u8, cap: usize, meta: *mut u8, n: usize) -> i64;
    fn ref_decompress(data: *const u8, n: usize, d: i32, test: i32, out: *mut u8) -> i64;
}

fn params() -> [i64; 14] {
    let mut p = [0; 14];
    for i in 0..14 {
        p[i] = sym::param(i as u32);
    }
    p
}

fn same(a: &[u8], b: &[u8]) -> bool {
    let mut d = (a.len() ^ b.len()) as u64;
    for i in 0..a.len().min(b.len()) {
        d |= (a[i] ^ b[i]) as u64;
    }
    d == 0
}

/// The program in the notation of the original: { dest, (source, factor)*, -1, denominator, chroma }*, -1
fn notation(p: &ColorTransformProgram) -> Vec<i32> {
    let mut v = vec![];
    for t in p.iter() {
        v.push(t.dest_channel as i32);
        for f in &t.channel_factors {
            v.push(f.src_channel as i32);
            v.push(f.factor as i32);
        }
        v.push(-1);
        v.push(t.denominator as i32);
        v.push(t.is_chroma as i32);
    }
    v.push(-1);
    v
}

/// A buffer of whole 32-bit words (the original reads and writes words).
struct Words(Vec<u32>);
impl Words {
    fn new(n: usize) -> Self {
        Words(vec![0; (n + 3) / 4])
    }
    fn bytes(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.0.as_mut_ptr() as *mut u8, self.0.len() * 4) }
    }
}

/// Byte-identical streams; identical images from them, whole and downsampled. params: cfg, 14 = downsampling
#[no_mangle]
pub fn h_ref() {
    let c = cfg();
    let p = params();
    let header = c.header();
    let mut image = c.image();
    let program = c.program();
    let t = notation(&program);
    let cap = 2048 + 8 * image.len();
    let mut want = Words::new(cap);
    let n = unsafe { ref_compress(p.as_ptr(), image.as_mut_ptr(), if p[9] == 0 { std::ptr::null() } else { t.as_ptr() }, want.bytes().as_mut_ptr(), cap) };
    sym::check(n > 0, 1601);
    let n = n as usize;
    let mut got = vec![0u8; cap];
    match compress_simple(&image, &header, &program, &mut got) {
        Ok(m) => {
            sym::check(m == n, 1602);
            sym::observe(m as u64);
            sym::check(same(&got[..m], &want.bytes()[..n]), 1603);
            for i in 0..m {
                sym::observe(got[i] as u64);
            }
        }
        Err(_) => sym::check(false, 1604),
    }
    let d = sym::param(14) as usize;
    let size = header.get_decompress_buffer_size(d);
    let mut a = vec![0u8; size];
    let mut b = vec![0u8; size];
    let r = unsafe { ref_decompress(want.bytes().as_ptr(), n, d as i32, 0, a.as_mut_ptr()) };
    sym::check(r == 0, 1605);
    let mut rest = &want.bytes()[..n];
    match Header::decode(&mut rest) {
        Ok(h) => {
            sym::check(h == header, 1606);
            match decompress_simple(rest, &h, d, false, &mut b) {
                Ok(x) => sym::check(x == 0, 1607),
                Err(_) => sym::check(false, 1608),
            }
        }
        Err(_) => sym::check(false, 1609),
    }
    sym::check(same(&a, &b), 1610);
    sym::reach(1);
}

/// Prefixes: whatever both decoders make of a cut stream without an error is the same image and the same next point of interest.
/// params: cfg, 14 = downsampling, 15 = first cut (bytes behind the header; negative: from the end), 16 = cuts, 17 = distance
#[no_mangle]
pub fn h_ref_prefix() {
    let c = cfg();
    let p = params();
    let header = c.header();
    let mut image = c.image();
    let program = c.program();
    let t = notation(&program);
    let cap = 2048 + 8 * image.len();
    let mut data = Words::new(cap);
    let n = unsafe { ref_compress(p.as_ptr(), image.as_mut_ptr(), t.as_ptr(), data.bytes().as_mut_ptr(), cap) };
    sym::check(n > 0, 1601);
    let n = n as usize;
    let d = sym::param(14) as usize;
    let at = sym::param(15) as i64 + sym::param(17) as i64 * sym::choose(sym::param(16) as u64) as i64;
    let cut = if at >= 0 { 32 + at as usize } else { n.wrapping_sub((-at) as usize) };
    if cut > n || cut < 32 {
        return;
    }
    let size = header.get_decompress_buffer_size(d);
    let mut a = vec![0u8; size];
    let mut b = vec![0u8; size];
    // whole words only: the original drops the rest
    let r = unsafe { ref_decompress(data.bytes().as_ptr(), cut, d as i32, 0, a.as_mut_ptr()) };
    match decompress_simple(&data.bytes()[32..cut], &header, d, false, &mut b) {
        Ok(x) => {
            sym::check(r >= 0, 1611);
            if x == 0 {
                sym::reach(1);
                sym::check(r == 0, 1612);
            } else {
                sym::reach(2);
            }
            sym::observe(x as u64);
            sym::observe(r as u64);
            sym::check(same(&a, &b), 1614);
        }
        Err(_) => sym::check(r != 0, 1615),
    }
}

/// Streams with metadata between header and colour program, which this library leaves to its caller: written stage by stage
/// they are the original's, and each decoder reads them. params: cfg, 14 = downsampling, 15 = words of metadata
#[no_mangle]
pub fn h_ref_meta() {
    let c = cfg();
    let p = params();
    let d = sym::param(14) as usize;
    let words = sym::param(15) as usize;
    let mut header = c.header();
    header.metadata_size = 4 * words as u32;
    let mut image = c.image();
    let program = c.program();
    let t = notation(&program);
    let mut meta = Words::new(4 * words);
    for i in 0..4 * words {
        meta.bytes()[i] = if i < 2 { sym::any_u8() } else { hash(i as u64) as u8 };
    }
    let cap = 2048 + 8 * image.len();
    let mut want = Words::new(cap);
    let n = unsafe { ref_compress_meta(p.as_ptr(), image.as_mut_ptr(), t.as_ptr(), want.bytes().as_mut_ptr(), cap, meta.bytes().as_mut_ptr(), 4 * words) };
    sym::check(n > 0, 1621);
    let n = n as usize;
    let mut got = Words::new(cap);
    let total = c.channels as usize * c.layers as usize;
    let m = {
        let mut o = &mut got.bytes()[..];
        sym::check(header.encode(&mut o).is_ok(), 1622);
        for i in 0..4 * words {
            o[i] = meta.bytes()[i];
        }
        o = &mut o[4 * words..];
        let chroma = match program.encode(total, &mut o) {
            Ok(v) => v,
            Err(_) => {
                sym::check(false, 1623);
                return;
            }
        };
        let mut aux = vec![0i16; image.len()];
        program.transform_and_to_planar(&image, &header, &mut aux);
        let left = o.len();
        match compress_aux_data(&mut aux, &header, &chroma, &mut o) {
            Ok(k) => (want.0.len() * 4 - left) + k,
            Err(_) => {
                sym::check(false, 1624);
                return;
            }
        }
    };
    sym::check(m == n, 1625);
    sym::check(same(&got.bytes()[..m], &want.bytes()[..n]), 1626);
    sym::observe(m as u64);
    for i in 0..m {
        sym::observe(got.bytes()[i] as u64);
    }
    let size = header.get_decompress_buffer_size(d);
    let mut a = vec![0u8; size];
    let mut b = vec![0u8; size];
    let r = unsafe { ref_decompress(got.bytes().as_ptr(), m, d as i32, 0, a.as_mut_ptr()) };
    sym::check(r == 0, 1627);
    let mut rest = &want.bytes()[..n];
    match Header::decode(&mut rest) {
        Ok(h) => {
            sym::check(h == header, 1628);
            match decompress_simple(&rest[h.metadata_size as usize..], &h, d, false, &mut b) {
                Ok(x) => sym::check(x == 0, 1629),
                Err(_) => sym::check(false, 1630),
            }
        }
        Err(_) => sym::check(false, 1631),
    }
    sym::check(same(&a, &b), 1632);
    sym::reach(1);
}
