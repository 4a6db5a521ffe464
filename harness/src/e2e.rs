use crate::cfg::*;
use crate::sym;
use gfwx::*;

/// Branch-free comparison (one assertion for the whole image).
pub fn same(a: &[u8], b: &[u8]) -> bool {
    let mut d = (a.len() ^ b.len()) as u64;
    for i in 0..a.len().min(b.len()) {
        d |= (a[i] ^ b[i]) as u64;
    }
    d == 0
}

/// Lossless round trip of the whole codec. params: cfg, 14 = extra buffer bytes
#[no_mangle]
pub fn h_lossless() {
    let c = cfg();
    let header = c.header();
    let image = c.image();
    let program = c.program();
    let mut buf = vec![0u8; 2048 + 8 * image.len()];
    let n = match compress_simple(&image, &header, &program, &mut buf) {
        Ok(n) => n,
        Err(_) => {
            sym::check(false, 101);
            return;
        }
    };
    sym::observe(n as u64);
    for i in 0..n {
        sym::observe(buf[i] as u64);
    }
    let mut data = &buf[..n];
    let h2 = match Header::decode(&mut data) {
        Ok(h) => h,
        Err(_) => {
            sym::check(false, 102);
            return;
        }
    };
    sym::check(h2 == header, 103);
    let mut out = vec![0u8; h2.get_decompress_buffer_size(0)];
    match decompress_simple(data, &h2, 0, false, &mut out) {
        Ok(next) => sym::check(next == 0, 104),
        Err(_) => sym::check(false, 105),
    }
    sym::reach(1);
    sym::check(out.len() == image.len(), 106);
    sym::check(same(&out, &image), 107);
}

fn flags(p: &ColorTransformProgram, total: usize) -> Vec<bool> {
    (0..total).map(|c| p.iter().any(|t| t.dest_channel == c && t.is_chroma)).collect()
}

/// What the decoder has to produce from quantised coefficients, composed from the public stages.
fn reconstruct(c: &Cfg, header: &Header, p: &ColorTransformProgram, coefs: &[i16], d: usize) -> Vec<u8> {
    let total = c.channels as usize * c.layers as usize;
    let chroma = flags(p, total);
    let (w, h) = (c.w as usize, c.h as usize);
    let s = 1usize << d;
    let (dw, dh) = ((w + s - 1) / s, (h + s - 1) / s);
    let mut aux = vec![0i16; dw * dh * total];
    for k in 0..total {
        for y in 0..dh {
            for x in 0..dw {
                aux[(k * dh + y) * dw + x] = coefs[(k * h + y * s) * w + x * s];
            }
        }
    }
    let top = 1024 * header.get_boost() as i32;
    for k in 0..total {
        let mut rows: Vec<&mut [i16]> = aux[k * dw * dh..(k + 1) * dw * dh].chunks_mut(dw).collect();
        let q = if chroma[k] { header.get_chroma_quality() } else { c.quality as i32 };
        gfwx::quant::dequantize(&mut rows, q << d, 0, top);
        match c.filter {
            Filter::Linear => gfwx::lifting::unlift_linear(&mut rows),
            Filter::Cubic => gfwx::lifting::unlift_cubic(&mut rows),
        }
    }
    let mut out = vec![0u8; dw * dh * total];
    p.detransform_and_to_interleaved(&mut aux, header, dw * dh, &mut out);
    out
}

/// The coefficients the encoder has to code.
fn analyse(c: &Cfg, header: &Header, p: &ColorTransformProgram, image: &[u8]) -> Vec<i16> {
    let total = c.channels as usize * c.layers as usize;
    let chroma = flags(p, total);
    let (w, h) = (c.w as usize, c.h as usize);
    let mut aux = vec![0i16; image.len()];
    p.transform_and_to_planar(image, header, &mut aux);
    let top = 1024 * header.get_boost() as i32;
    for k in 0..total {
        let mut rows: Vec<&mut [i16]> = aux[k * w * h..(k + 1) * w * h].chunks_mut(w).collect();
        match c.filter {
            Filter::Linear => gfwx::lifting::lift_linear(&mut rows),
            Filter::Cubic => gfwx::lifting::lift_cubic(&mut rows),
        }
        let q = if chroma[k] { header.get_chroma_quality() } else { c.quality as i32 };
        gfwx::quant::quantize(&mut rows, q, 0, top);
    }
    aux
}

fn write(c: &Cfg, header: &Header, p: &ColorTransformProgram, image: &[u8]) -> Vec<u8> {
    let _ = c;
    let mut buf = vec![0u8; 2048 + 8 * image.len()];
    match compress_simple(image, header, p, &mut buf) {
        Ok(n) => {
            buf.truncate(n);
            buf
        }
        Err(_) => {
            sym::check(false, 101);
            loop {}
        }
    }
}

/// The compressed form carries exactly the quantised coefficients: at any quality and downsampling the decoder's output is
/// the composition of the public inverse stages on what the public forward stages give.
/// params: cfg, 14 = downsampling
#[no_mangle]
pub fn h_compose() {
    let c = cfg();
    let d = sym::param(14) as usize;
    let header = c.header();
    let image = c.image();
    let p = c.program();
    let data = write(&c, &header, &p, &image);
    sym::observe(data.len() as u64);
    for x in &data {
        sym::observe(*x as u64);
    }
    let coefs = analyse(&c, &header, &p, &image);
    let want = reconstruct(&c, &header, &p, &coefs, d);
    let mut rest = &data[..];
    let h2 = match Header::decode(&mut rest) {
        Ok(h) => h,
        Err(_) => {
            sym::check(false, 102);
            return;
        }
    };
    let n = h2.get_decompress_buffer_size(d);
    sym::check(n == want.len(), 111);
    // bytes behind the image stay as they were
    let mut out = vec![0x5au8; n + 5];
    match decompress_simple(rest, &h2, d, false, &mut out) {
        Ok(next) => sym::check(next == 0, 104),
        Err(_) => sym::check(false, 105),
    }
    for i in 0..5 {
        sym::check(out[n + i] == 0x5a, 112);
    }
    sym::check(same(&out[..n], &want), 113);
    for i in 0..n {
        sym::observe(out[i] as u64);
    }
    sym::reach(1);
}

/// A uniform image comes back exactly at every quality. params: cfg (nsym = 1: one value for all channels, otherwise one
/// value per channel)
#[no_mangle]
pub fn h_uniform() {
    let c = cfg();
    let header = c.header();
    let p = c.program();
    let ch = c.channels as usize;
    let cs = c.w as usize * c.h as usize;
    let total = ch * c.layers as usize;
    let mut v = vec![0u8; total];
    for k in 0..total {
        v[k] = if c.nsym < 0 && k == 0 {
            sym::u(8, c.first as u64, c.first as u64 + c.nsym.unsigned_abs() as u64 - 1) as u8
        } else if k == 0 || c.nsym > 1 {
            sym::any_u8()
        } else {
            v[0]
        };
    }
    let mut image = vec![0u8; cs * total];
    for l in 0..c.layers as usize {
        for i in 0..cs {
            for k in 0..ch {
                image[(l * cs + i) * ch + k] = v[l * ch + k];
            }
        }
    }
    let data = write(&c, &header, &p, &image);
    sym::observe(data.len() as u64);
    for x in &data {
        sym::observe(*x as u64);
    }
    let mut out = vec![0u8; image.len()];
    match decompress_simple(&data[32..], &header, 0, false, &mut out) {
        Ok(next) => sym::check(next == 0, 104),
        Err(_) => sym::check(false, 105),
    }
    sym::check(same(&out, &image), 121);
    // and so does every smaller version of it
    let d = sym::param(14) as usize;
    if d > 0 {
        let n = header.get_decompress_buffer_size(d);
        let mut out = vec![0u8; n];
        match decompress_simple(&data[32..], &header, d, false, &mut out) {
            Ok(next) => sym::check(next == 0, 122),
            Err(_) => sym::check(false, 123),
        }
        let dcs = n / total;
        let mut bad = 0u8;
        for l in 0..c.layers as usize {
            for i in 0..dcs {
                for k in 0..ch {
                    bad |= out[(l * dcs + i) * ch + k] ^ v[l * ch + k];
                }
            }
        }
        sym::check(bad == 0, 124);
    }
    sym::reach(1);
}

/// Compressing into any buffer: an error, or the same bytes as with ample room; nothing is written past the end.
/// params: cfg, 14 = smallest length, 15 = number of lengths, 16 = stride
#[no_mangle]
pub fn h_buffer() {
    let c = cfg();
    let header = c.header();
    let image = c.image();
    let p = c.program();
    let full = write(&c, &header, &p, &image);
    let len = sym::param(14) as usize + sym::choose(sym::param(15) as u64) as usize * sym::param(16).max(1) as usize;
    let mut buf = vec![0xa5u8; len];
    match compress_simple(&image, &header, &p, &mut buf) {
        Ok(n) => {
            sym::check(n <= len, 131);
            sym::check(n == full.len(), 132);
            sym::check(n <= len && same(&buf[..n.min(len)], &full), 133);
            sym::reach(1);
        }
        Err(_) => {
            // ample room is enough
            sym::check(len < full.len() + 4096, 134);
            sym::reach(2)
        }
    }
}

struct Level {
    at: usize,
    table: usize,
    ends: Vec<usize>,
}

/// The levels of a payload, read with an independent parser of the format.
fn levels(c: &Cfg, data: &[u8]) -> Vec<Level> {
    let (w, h) = (c.w as usize, c.h as usize);
    let total = c.channels as usize * c.layers as usize;
    let mut step = 1usize;
    while step * 2 < w || step * 2 < h {
        step *= 2;
    }
    let mut o = vec![];
    let mut at = 0;
    while step > 0 {
        let bs = step << c.block;
        let n = ((w + bs - 1) / bs) * ((h + bs - 1) / bs) * total;
        let mut ends = vec![];
        let mut e = at + 4 * n;
        for i in 0..n {
            let k = at + 4 * i;
            let words = sym::concretize(data[k] as u64 | (data[k + 1] as u64) << 8 | (data[k + 2] as u64) << 16 | (data[k + 3] as u64) << 24);
            e += words as usize * 4;
            ends.push(e);
        }
        o.push(Level { at, table: 4 * n, ends });
        at = e;
        step /= 2;
    }
    sym::check(at == data.len(), 141);
    o
}

/// Every prefix of a stream: the blocks that are wholly there are used, the others read as zero; the result tells
/// whether something is missing. params: cfg, 14 = downsampling, 15 = first cut (from the end of the program when
/// >= 0, from the end of the data when < 0), 16 = cuts, 17 = 1: the test mode too, 18 = distance of the cuts
#[no_mangle]
pub fn h_prefix() {
    let c = cfg();
    let d = sym::param(14) as usize;
    let header = c.header();
    let image = c.image();
    let p = c.program();
    let total = c.channels as usize * c.layers as usize;
    let data = write(&c, &header, &p, &image);
    let coefs = analyse(&c, &header, &p, &image);
    let service = {
        let mut b = vec![0u8; 512];
        let mut o = &mut b[..];
        sym::check(p.encode(total, &mut o).is_ok(), 142);
        32 + 512 - o.len()
    };
    let ls = levels(&c, &data[service..]);
    let n = data.len() - service;
    let k = sym::choose(sym::param(16) as u64) as usize * sym::param(18).max(1) as usize;
    let len = if sym::param(15) >= 0 { sym::param(15) as usize + k } else { (n + k + 1) - (-sym::param(15)) as usize };
    if len > n {
        return;
    }
    let (w, h) = (c.w as usize, c.h as usize);
    // what is there
    let mut have = vec![0i16; coefs.len()];
    let (mut next, mut missing, mut broken) = (len + 1024, false, false);
    let mut step = 1usize << (ls.len() - 1);
    for (i, l) in ls.iter().enumerate() {
        if step >> d == 0 {
            break;
        }
        let last = (step >> d) == 1;
        missing = true;
        if l.at > len {
            broken = true; // the previous level was cut
            break;
        }
        if len - l.at <= l.table {
            break;
        }
        let end = *l.ends.last().unwrap();
        next = end + if last { 0 } else { 4 * l.table };
        missing = end > len;
        let bs = step << c.block;
        let (nx, ny) = ((w + bs - 1) / bs, (h + bs - 1) / bs);
        for (b, &e) in l.ends.iter().enumerate() {
            if e > len {
                continue;
            }
            let (bx, by, ch) = (b % nx, b / nx % ny, b / nx / ny);
            let mut y = by * bs;
            while y < ((by + 1) * bs).min(h) {
                let mut x = bx * bs;
                while x < ((bx + 1) * bs).min(w) {
                    let fine = x % (2 * step) != 0 || y % (2 * step) != 0;
                    if fine || (i == 0 && x == 0 && y == 0) {
                        have[(ch * h + y) * w + x] = coefs[(ch * h + y) * w + x];
                    }
                    x += step;
                }
                y += step;
            }
        }
        step /= 2;
    }
    let m = header.get_decompress_buffer_size(d);
    let mut out = vec![0x5au8; m];
    let r = decompress_simple(&data[32..service + len], &header, d, false, &mut out);
    match &r {
        Ok(v) => {
            if !missing {
                sym::check(*v == 0, 143);
                sym::reach(1);
            } else {
                sym::check(*v == next && *v != 0, 144);
                sym::reach(2);
            }
            let want = reconstruct(&c, &header, &p, &have, d);
            sym::check(same(&out, &want), 145);
            for x in &out {
                sym::observe(*x as u64);
            }
        }
        Err(DecompressError::Underflow) => sym::check(broken, 146),
        Err(_) => sym::check(false, 147),
    }
    if sym::param(17) == 1 {
        let mut o2 = vec![0x5au8; m];
        match (decompress_simple(&data[32..service + len], &header, d, true, &mut o2), &r) {
            (Ok(a), Ok(b)) => sym::check(a == *b, 148),
            (Err(_), Err(_)) => {}
            _ => sym::check(false, 149),
        }
    }
}
