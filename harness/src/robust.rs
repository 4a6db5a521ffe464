//! The decoder on damaged or hostile data: an error or an image, never a panic, an endless loop or a stray access.
use crate::cfg::*;
use crate::sym;
use gfwx::*;

fn valid(c: &Cfg) -> (Header, Vec<u8>) {
    let header = c.header();
    let mut buf = vec![0u8; 2048 + 8 * c.len()];
    let image = c.image();
    match compress_simple(&image, &header, &c.program(), &mut buf) {
        Ok(n) => buf.truncate(n),
        Err(_) => sym::check(false, 101),
    }
    (header, buf)
}

fn run(header: &Header, data: &[u8], d: usize, test: bool) {
    let n = header.get_decompress_buffer_size(d);
    let mut out = vec![0x5au8; n + 3];
    let ok = decompress_simple(data, header, d, test, &mut out).is_ok();
    sym::check(out[n] == 0x5a && out[n + 1] == 0x5a && out[n + 2] == 0x5a, 201);
    if ok {
        sym::reach(1);
    } else {
        sym::reach(2);
    }
}

/// A valid stream with arbitrary bytes from a chosen position behind the header on, possibly cut.
/// params: cfg, 14 = downsampling, 15 = first position, 16 = positions, 17 = arbitrary bytes, 18 = bytes cut off at the end,
/// 19 = test mode, 20 = stride of positions
#[no_mangle]
pub fn h_damage() {
    let c = cfg();
    let (header, mut data) = valid(&c);
    let stride = sym::param(20).max(1) as usize;
    let pos = 32 + sym::param(15) as usize + stride * sym::choose(sym::param(16) as u64) as usize;
    for i in 0..sym::param(17) as usize {
        if pos + i < data.len() {
            data[pos + i] = sym::any_u8();
        }
    }
    let len = data.len() - sym::param(18) as usize;
    run(&header, &data[32..len], sym::param(14) as usize, sym::param(19) == 1);
}

/// A payload of n bytes whose first k are arbitrary and whose others follow a pattern, as an image of the given form.
/// params: cfg, 14 = downsampling, 15 = n, 16 = k, 17 = filler, 18 = 1: an empty program comes first
#[no_mangle]
pub fn h_garbage() {
    let c = cfg();
    let header = c.header();
    let n = sym::param(15) as usize;
    let k = sym::param(16) as usize;
    let mut data = vec![];
    if sym::param(18) == 1 {
        let mut b = [0u8; 64];
        let mut o = &mut b[..];
        let r = ColorTransformProgram::new().encode(c.channels as usize * c.layers as usize, &mut o);
        sym::check(r.is_ok(), 202);
        let used = 64 - o.len();
        data.extend_from_slice(&b[..used]);
    }
    for i in 0..n {
        data.push(if i < k { sym::any_u8() } else { pattern(sym::param(17), i, 7) });
    }
    run(&header, &data, sym::param(14) as usize, false);
}

/// Arbitrary bytes in the header of a valid stream: what it then describes is decoded from the same payload.
/// params: cfg, 14 = downsampling, 15 = position, 16 = positions, 17 = arbitrary bytes, 18 = largest image to decode
#[no_mangle]
pub fn h_damage_header() {
    let c = cfg();
    let (_, mut data) = valid(&c);
    let pos = sym::param(15) as usize + sym::choose(sym::param(16) as u64) as usize;
    for i in 0..sym::param(17) as usize {
        data[pos + i] = sym::any_u8();
    }
    let mut rest = &data[..];
    match Header::decode(&mut rest) {
        Ok(h) => {
            let d = sym::param(14) as usize;
            let max = sym::param(18) as usize;
            if h.get_decompress_buffer_size(d) <= max && h.get_image_size() <= 4 * max {
                let h = Header { width: sym::concretize(h.width as u64) as u32, height: sym::concretize(h.height as u64) as u32, ..h };
                run(&h, rest, d, false);
            }
        }
        Err(_) => sym::reach(3),
    }
}
