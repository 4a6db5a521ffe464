//! What was done before does not matter.
use crate::cfg::*;
use crate::sym;
use gfwx::*;

extern "C" {
    fn serial_compress(p: *const i64, image: *const u8, n: usize, out: *mut u8, cap: usize) -> i64;
    fn serial_decompress(p: *const i64, data: *const u8, n: usize, d: usize, test: bool, out: *mut u8, cap: usize) -> i64;
}

fn same(a: &[u8], b: &[u8]) -> bool {
    let mut d = (a.len() ^ b.len()) as u64;
    for i in 0..a.len().min(b.len()) {
        d |= (a[i] ^ b[i]) as u64;
    }
    d == 0
}

/// Other work. kinds: 1 compress, 2 decompress, 4 decompress downsampled, 8 compress without room, 16 decompress damaged data,
/// 32 read bad headers, 64 decompress a prefix, 128 test mode
fn earlier(a: &Cfg, image: &[u8], kinds: i64) {
    let header = a.header();
    let p = a.program();
    let cap = 2048 + 8 * image.len();
    let mut data = vec![0u8; cap];
    let n = match compress_simple(image, &header, &p, &mut data) {
        Ok(n) => n,
        Err(_) => {
            sym::check(false, 2001);
            return;
        }
    };
    if kinds & 1 != 0 {
        let mut again = vec![0u8; cap];
        match compress_simple(image, &header, &p, &mut again) {
            Ok(m) => sym::check(m == n && same(&again[..m], &data[..n]), 2002),
            Err(_) => sym::check(false, 2003),
        }
    }
    let mut out = vec![0u8; header.get_decompress_buffer_size(0)];
    if kinds & 2 != 0 {
        let r = decompress_simple(&data[32..n], &header, 0, false, &mut out);
        sym::check(r.is_ok(), 2004);
    }
    if kinds & 4 != 0 {
        let mut small = vec![0u8; header.get_decompress_buffer_size(1)];
        let _ = decompress_simple(&data[32..n], &header, 1, false, &mut small);
    }
    if kinds & 8 != 0 {
        let mut short = vec![0u8; n - 4];
        let _ = compress_simple(image, &header, &p, &mut short);
    }
    if kinds & 16 != 0 {
        let mut bad = data[32..n].to_vec();
        let at = bad.len() * 2 / 3;
        bad[at] ^= 0x5a;
        let _ = decompress_simple(&bad, &header, 0, false, &mut out);
    }
    if kinds & 32 != 0 {
        let mut bad = data[..32].to_vec();
        bad[20] ^= 0x1f;
        let _ = Header::decode(&mut &bad[..]);
        bad[24] = 9;
        sym::check(Header::decode(&mut &bad[..]).is_err(), 2005);
    }
    if kinds & 64 != 0 {
        let _ = decompress_simple(&data[32..n - 4], &header, 0, false, &mut out);
    }
    if kinds & 128 != 0 {
        let r = decompress_simple(&data[32..n], &header, 0, true, &mut out);
        sym::check(r.is_ok(), 2006);
    }
}

/// Compressing and decompressing after other calls gives what a program gives that makes no other calls.
/// params: cfg, 14..=27 = cfg of the other work, 28 = its kinds, 29 = when: 1 before, 2 between compressing and decompressing, 3 both, + 4: the
/// buffers handed in have been used before; 30 = downsampling, 31 = words cut off what is decompressed
#[no_mangle]
pub fn h_history() {
    let c = cfg();
    let mut p = [0; 14];
    for i in 0..14 {
        p[i] = sym::param(i as u32);
    }
    let a = cfg_at(14);
    let (kinds, when, d) = (sym::param(28), sym::param(29), sym::param(30) as usize);
    let header = c.header();
    let image = c.image();
    let other = a.image();
    let cap = 2048 + 8 * image.len();
    let mut want = vec![0u8; cap];
    let n = unsafe { serial_compress(p.as_ptr(), image.as_ptr(), image.len(), want.as_mut_ptr(), cap) };
    sym::check(n > 0, 2011);
    let n = n as usize;
    if when & 1 != 0 {
        earlier(&a, &other, kinds);
    }
    // what the buffers hold beforehand
    let used = if when & 4 != 0 { sym::any_u8() } else { 0 };
    let mut got = vec![used; cap];
    match compress_simple(&image, &header, &c.program(), &mut got) {
        Ok(m) => {
            sym::check(m == n, 2012);
            sym::check(same(&got[..m], &want[..n]), 2013);
        }
        Err(_) => sym::check(false, 2014),
    }
    if when & 2 != 0 {
        earlier(&a, &other, kinds);
    }
    let n = n - 4 * sym::param(31) as usize;
    let size = header.get_decompress_buffer_size(d);
    let mut x = vec![0u8; size];
    let mut y = vec![used; size];
    let r = unsafe { serial_decompress(p.as_ptr(), want[32..n].as_ptr(), n - 32, d, false, x.as_mut_ptr(), size) };
    let h2 = match Header::decode(&mut &want[..32]) {
        Ok(h) => h,
        Err(_) => {
            sym::check(false, 2015);
            return;
        }
    };
    sym::check(h2 == header, 2016);
    match decompress_simple(&want[32..n], &h2, d, false, &mut y) {
        Ok(v) => sym::check(v as i64 == r, 2017),
        Err(_) => sym::check(r == -1, 2018),
    }
    sym::check(r < 0 || same(&x, &y), 2019);
    sym::reach(1);
}
