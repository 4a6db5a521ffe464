//! What a channel becomes depends on nothing but the channel.
use crate::cfg::*;
use crate::sym;
use gfwx::*;

fn flags(total: usize, mask: i64) -> ColorTransformProgram {
    let mut p = ColorTransformProgram::new();
    for k in 0..total {
        if mask >> k & 1 == 1 {
            p.add_channel_transform(ChannelTransformBuilder::with_dest_channel(k).set_chroma().build());
        }
    }
    p
}

fn intent(i: i64) -> Intent {
    match i {
        1 => Intent::RGB,
        2 => Intent::BGRA,
        3 => Intent::RGBA,
        4 => Intent::YUV444,
        5 => Intent::BGR,
        _ => Intent::Generic,
    }
}

fn header(c: &Cfg, channels: u16, layers: u16, e: i64, block: i64, i: i64) -> Option<Header> {
    (HeaderBuilder {
        width: c.w,
        height: c.h,
        layers,
        channels,
        quality: c.quality,
        chroma_scale: c.chroma_scale,
        block_size: block as u8,
        filter: filter(sym::param(5)),
        encoder: encoder(e),
        intent: intent(i),
        metadata_size: 0,
    })
    .build()
    .ok()
}

fn word(b: &[u8], at: usize) -> usize {
    b[at] as usize | (b[at + 1] as usize) << 8 | (b[at + 2] as usize) << 16 | (b[at + 3] as usize) << 24
}

/// The words of a channel's blocks, level by level, and their sum; `k`: which channel out of `n`. None if the parts do not add up.
fn parts(data: &[u8], w: usize, h: usize, block: usize, n: usize, k: usize) -> Option<Vec<Vec<u8>>> {
    let mut step = 1;
    while step * 2 < w || step * 2 < h {
        step *= 2;
    }
    let mut at = 0;
    let mut out = vec![];
    while step >= 1 {
        let b = step << block;
        let count = ((w + b - 1) / b) * ((h + b - 1) / b);
        if data.len() < at + 4 * count * n {
            return None;
        }
        let sizes = at;
        at += 4 * count * n;
        for i in 0..count * n {
            let size = 4 * word(data, sizes + 4 * i);
            if data.len() < at + size {
                return None;
            }
            if i / count == k {
                out.push(data[at..at + size].to_vec());
            }
            at += size;
        }
        step /= 2;
    }
    if at == data.len() {
        Some(out)
    } else {
        None
    }
}

/// A channel of an image decodes to what it decodes to as an image of its own, with any encoder and block size, and its blocks in
/// the stream are those it has alone.
/// params: cfg (the program is replaced), 14 = downsampling, 15 = chroma channels, 16 = encoder, 17 = block size, 18 = intent, when alone, 19 = intent of the image
#[no_mangle]
pub fn h_alone() {
    let c = cfg();
    let (d, mask, e2, b2, i2) = (sym::param(14) as usize, sym::param(15), sym::param(16), sym::param(17), sym::param(18));
    let image = c.image();
    let channels = c.channels as usize;
    let total = channels * c.layers as usize;
    let size = c.w as usize * c.h as usize;
    let cap = 4096 + 8 * image.len();
    let (head, alone) = match (header(&c, c.channels, c.layers, sym::param(4), sym::param(6), sym::param(19)), header(&c, 1, 1, e2, b2, i2)) {
        (Some(a), Some(b)) => (a, b),
        _ => {
            sym::check(false, 2101);
            return;
        }
    };
    let mut data = vec![0u8; cap];
    let p = flags(total, mask);
    let n = match compress_simple(&image, &head, &p, &mut data) {
        Ok(n) => n,
        Err(_) => {
            sym::check(false, 2102);
            return;
        }
    };
    let mut out = vec![0u8; head.get_decompress_buffer_size(d)];
    sym::check(decompress_simple(&data[32..n], &head, d, false, &mut out).is_ok(), 2103);
    let each = out.len() / total;
    sym::check(each * total == out.len(), 2104);
    let mut service = vec![];
    sym::check(p.encode(total, &mut service).is_ok(), 2105);
    let at = 32 + service.len();
    for k in 0..total {
        let from = |i: usize, size: usize| k / channels * size * channels + i * channels + k % channels;
        let mut one = vec![0u8; size];
        for i in 0..size {
            one[i] = image[from(i, size)];
        }
        let p = flags(1, mask >> k & 1);
        let mut own = vec![0u8; cap];
        let m = match compress_simple(&one, &alone, &p, &mut own) {
            Ok(m) => m,
            Err(_) => {
                sym::check(false, 2106);
                return;
            }
        };
        let mut res = vec![0u8; alone.get_decompress_buffer_size(d)];
        sym::check(res.len() == each, 2107);
        sym::check(decompress_simple(&own[32..m], &alone, d, false, &mut res).is_ok(), 2108);
        let mut diff = 0;
        for i in 0..each {
            diff |= res[i] ^ out[from(i, each)];
        }
        sym::check(diff == 0, 2110);
        if e2 == sym::param(4) && b2 == sym::param(6) {
            let mut service = vec![];
            sym::check(p.encode(1, &mut service).is_ok(), 2111);
            let mine = parts(&data[at..n], c.w as usize, c.h as usize, c.block as usize, total, k);
            let theirs = parts(&own[32 + service.len()..m], c.w as usize, c.h as usize, c.block as usize, 1, 0);
            match (mine, theirs) {
                (Some(a), Some(b)) => {
                    sym::check(a.len() == b.len(), 2112);
                    for j in 0..a.len().min(b.len()) {
                        sym::check(a[j].len() == b[j].len(), 2113);
                        let mut diff = 0;
                        for i in 0..a[j].len().min(b[j].len()) {
                            diff |= a[j][i] ^ b[j][i];
                        }
                        sym::check(diff == 0, 2114);
                    }
                    sym::reach(2);
                }
                _ => sym::check(false, 2115),
            }
        }
    }
    sym::reach(1);
}
