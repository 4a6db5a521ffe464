//! Schedules: the parallel build against the single-threaded one.
use crate::cfg::*;
use crate::sym;
use gfwx::*;

extern "C" {
    fn serial_compress(p: *const i64, image: *const u8, n: usize, out: *mut u8, cap: usize) -> i64;
    fn serial_decompress(p: *const i64, data: *const u8, n: usize, d: usize, test: bool, out: *mut u8, cap: usize) -> i64;
}

fn params() -> [i64; 14] {
    let mut p = [0; 14];
    for i in 0..14 {
        p[i] = sym::param(i as u32);
    }
    p
}

fn same(a: &[u8], b: &[u8]) -> bool {
    let mut d = (a.len() ^ b.len()) as u64;
    for i in 0..a.len().min(b.len()) {
        d |= (a[i] ^ b[i]) as u64;
    }
    d == 0
}

/// Compression and decompression in parallel, in any order of the tasks, give what one thread gives.
/// params: cfg, 14 = order of the compressing tasks, 15 = order of the decompressing tasks, 16 = downsampling
#[no_mangle]
pub fn h_par() {
    let c = cfg();
    let p = params();
    let header = c.header();
    let image = c.image();
    let cap = 2048 + 8 * image.len();
    let mut want = vec![0u8; cap];
    let n = unsafe { serial_compress(p.as_ptr(), image.as_ptr(), image.len(), want.as_mut_ptr(), cap) };
    sym::check(n > 0, 1301);
    rayon::set_order(sym::param(14) as usize);
    let mut got = vec![0u8; cap];
    match compress_simple(&image, &header, &c.program(), &mut got) {
        Ok(m) => {
            sym::check(m as i64 == n, 1302);
            sym::check(same(&got[..m], &want[..n as usize]), 1303);
            sym::observe(m as u64);
            for i in 0..m {
                sym::observe(got[i] as u64);
            }
        }
        Err(_) => sym::check(false, 1304),
    }
    let d = sym::param(16) as usize;
    let size = header.get_decompress_buffer_size(d);
    let data = &want[32..n as usize];
    let mut a = vec![0u8; size];
    let mut b = vec![0u8; size];
    let r = unsafe { serial_decompress(p.as_ptr(), data.as_ptr(), data.len(), d, false, a.as_mut_ptr(), size) };
    rayon::set_order(sym::param(15) as usize);
    match decompress_simple(data, &header, d, false, &mut b) {
        Ok(x) => sym::check(x as i64 == r, 1305),
        Err(_) => sym::check(r == -1, 1306),
    }
    sym::check(same(&a, &b), 1307);
    sym::reach(1);
}

/// The same on damaged or cut streams: the same result, and the same image unless there is none.
/// params: cfg, 14 = order, 15 = first position, 16 = positions, 17 = arbitrary bytes, 18 = bytes cut off the end
#[no_mangle]
pub fn h_par_damage() {
    let c = cfg();
    let p = params();
    let header = c.header();
    let image = c.image();
    let cap = 2048 + 8 * image.len();
    let mut data = vec![0u8; cap];
    let n = unsafe { serial_compress(p.as_ptr(), image.as_ptr(), image.len(), data.as_mut_ptr(), cap) };
    sym::check(n > 0, 1301);
    let pos = 32 + sym::param(15) as usize + sym::choose(sym::param(16) as u64) as usize;
    for i in 0..sym::param(17) as usize {
        if pos + i < n as usize {
            data[pos + i] = sym::any_u8();
        }
    }
    let data = &data[32..n as usize - sym::param(18) as usize];
    let size = header.get_decompress_buffer_size(0);
    let mut a = vec![0u8; size];
    let mut b = vec![0u8; size];
    let r = unsafe { serial_decompress(p.as_ptr(), data.as_ptr(), data.len(), 0, false, a.as_mut_ptr(), size) };
    rayon::set_order(sym::param(14) as usize);
    match decompress_simple(data, &header, 0, false, &mut b) {
        Ok(x) => {
            sym::check(x as i64 == r, 1311);
            sym::check(same(&a, &b), 1312);
            sym::reach(1);
        }
        Err(_) => {
            sym::check(r == -1, 1313);
            sym::reach(2);
        }
    }
}

/// Compression into a buffer of any length. params: cfg, 14 = order, 15 = smallest length, 16 = lengths
#[no_mangle]
pub fn h_par_buffer() {
    let c = cfg();
    let p = params();
    let header = c.header();
    let image = c.image();
    let len = (sym::param(15) as u64 + sym::choose(sym::param(16) as u64)) as usize;
    let mut want = vec![0u8; len];
    let n = unsafe { serial_compress(p.as_ptr(), image.as_ptr(), image.len(), want.as_mut_ptr(), len) };
    rayon::set_order(sym::param(14) as usize);
    let mut got = vec![0u8; len];
    match compress_simple(&image, &header, &c.program(), &mut got) {
        Ok(m) => {
            sym::check(m as i64 == n, 1321);
            sym::check(n >= 0 && same(&got[..m], &want[..n as usize]), 1322);
            sym::reach(1);
        }
        Err(_) => {
            sym::check(n == -1, 1323);
            sym::reach(2);
        }
    }
}
