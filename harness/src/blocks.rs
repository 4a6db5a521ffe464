//! Coefficient blocks: the three entropy coders.
use crate::cfg::*;
use crate::sym;
use gfwx::bits::{BitsIOReader, BitsIOWriter, BitsWriter};
use gfwx::encode::{decode, encode};
use gfwx::processing::image::Image;

/// Patterned coefficients of various magnitudes, many zeros.
pub fn coef(pat: i64, i: usize) -> i16 {
    let h = hash(i as u64 + pat as u64 * 131);
    match pat {
        0 => 0,
        1 => (h % 7) as i16 - 3,
        2 => {
            if h % 4 == 0 {
                (h / 8 % 41) as i16 - 20
            } else {
                0
            }
        }
        3 => (h % 601) as i16 - 300,
        4 => (h % 8001) as i16 - 4000,
        5 => {
            if h % 9 == 0 {
                1
            } else {
                0
            }
        }
        // the largest the codec can produce
        7 => (4096 + h % 14000) as i16 * if h >> 40 & 1 == 0 { 1 } else { -1 },
        8 => 4080 * if h >> 40 & 1 == 0 { 1 } else { -1 },
        _ => (h % 65536) as u16 as i16,
    }
}

pub struct B {
    pub w: usize,
    pub h: usize,
    pub bs: usize,
    pub step: usize,
    pub scheme: gfwx::Encoder,
    pub q: i32,
    pub dc: bool,
    pub chroma: bool,
    pub channels: usize,
}

/// params: 0 w, 1 h, 2 chunk size, 3 step, 4 encoder, 5 quality, 6 dc, 7 chroma, 8 channels
pub fn block() -> B {
    B {
        w: sym::param(0) as usize,
        h: sym::param(1) as usize,
        bs: sym::param(2) as usize,
        step: sym::param(3) as usize,
        scheme: encoder(sym::param(4)),
        q: sym::param(5) as i32,
        dc: sym::param(6) == 1,
        chroma: sym::param(7) == 1,
        channels: sym::param(8) as usize,
    }
}

/// Decoding the encoded blocks restores exactly the coefficients of this level, whatever the finer ones are, and touches
/// nothing else; blocks are decoded in the opposite order. params: block(), 9 pattern, 10 first, 11 stride, 12 number of
/// symbolic coefficients, 13 lo, 14 hi
#[no_mangle]
pub fn h_block() {
    let b = block();
    let pat = sym::param(9);
    let n = b.w * b.h * b.channels;
    let mut a = vec![0i16; n];
    for i in 0..n {
        a[i] = coef(pat, i);
    }
    let mut at = sym::param(10) as usize;
    for _ in 0..sym::param(12) {
        a[at % n] = sym::i16_in(sym::param(13), sym::param(14));
        at += sym::param(11) as usize;
    }
    let orig = a.clone();
    let mut streams: Vec<Vec<u8>> = vec![];
    for chunk in Image::from_slice(&mut a, (b.w, b.h), b.channels).into_chunks_mut(b.bs, b.step) {
        let mut buf = vec![0u8; 16 + 16 * b.w * b.h];
        let total = buf.len();
        let left = {
            let mut out = &mut buf[..];
            {
                let mut w = BitsIOWriter::new(&mut out);
                let dc = b.dc && chunk.x_range.0 == 0 && chunk.y_range.0 == 0;
                sym::check(encode(&chunk, &mut w, b.scheme, b.q, dc, b.chroma).is_ok(), 601);
                sym::check(w.flush_write_word().is_ok(), 602);
            }
            out.len()
        };
        buf.truncate(total - left);
        sym::observe(buf.len() as u64);
        for x in &buf {
            sym::observe(*x as u64);
        }
        streams.push(buf);
    }
    let mut d = 0i16;
    for i in 0..n {
        d |= a[i] ^ orig[i];
    }
    sym::check(d == 0, 603);
    // the decoder starts from the coarser levels, everything else is empty
    let mut r = vec![0i16; n];
    let mut expect = vec![0i16; n];
    for c in 0..b.channels {
        for y in 0..b.h {
            for x in 0..b.w {
                let i = (c * b.h + y) * b.w + x;
                let coarser = x % (2 * b.step) == 0 && y % (2 * b.step) == 0 && !(b.dc && x == 0 && y == 0);
                if coarser {
                    r[i] = orig[i];
                }
                if x % b.step == 0 && y % b.step == 0 {
                    expect[i] = orig[i];
                }
            }
        }
    }
    let mut chunks: Vec<_> = Image::from_slice(&mut r, (b.w, b.h), b.channels).into_chunks_mut(b.bs, b.step).collect();
    sym::check(chunks.len() == streams.len(), 604);
    while let Some(chunk) = chunks.pop() {
        if let Some(s) = streams.pop() {
            let mut inp = &s[..];
            {
                let mut rd = BitsIOReader::new(&mut inp);
                let dc = b.dc && chunk.x_range.0 == 0 && chunk.y_range.0 == 0;
                sym::check(decode(chunk, &mut rd, b.scheme, b.q, dc, b.chroma).is_ok(), 605);
            }
            sym::check(inp.is_empty(), 606);
        }
    }
    drop(chunks);
    let mut d = 0i16;
    for i in 0..n {
        d |= r[i] ^ expect[i];
    }
    sym::check(d == 0, 607);
    sym::reach(1);
}

/// Arbitrary bits as the code of a block: an error or a decoded block; no panic, no access outside the channel, and only
/// this level's coefficients of this block change.
/// params: block() (chunk number in 15), 9 pattern, 10 = arbitrary bits, 11 = bits of fixed prefix, 12 = prefix value,
/// 13 = bytes in all, 14 = filler byte
#[no_mangle]
pub fn h_block_any() {
    let b = block();
    let pat = sym::param(9);
    let which = sym::param(15) as usize;
    let n = b.w * b.h * b.channels;
    let mut r = vec![0i16; n];
    for i in 0..n {
        r[i] = coef(pat, i);
    }
    let before = r.clone();
    let bytes = sym::param(13) as usize;
    let mut s = vec![sym::param(14) as u8; bytes];
    // prefix and arbitrary bits go through the words most significant bit first
    let (nb, pb, pv) = (sym::param(10) as usize, sym::param(11) as usize, sym::param(12) as u64);
    if nb > 0 {
        // whole arbitrary bytes first, then single bits
        let v = sym::u(nb as u32, 0, if nb == 64 { u64::MAX } else { (1u64 << nb) - 1 });
        for i in 0..pb + nb {
            let bit = if i < pb { (pv >> (pb - 1 - i)) & 1 } else { (v >> (nb - 1 - (i - pb))) & 1 };
            let at = (i / 32) * 4 + 3 - (i % 32) / 8;
            if at < bytes {
                let sh = 7 - i % 8;
                s[at] = (s[at] & !(1 << sh)) | ((bit as u8) << sh);
            }
        }
    }
    let chunk = Image::from_slice(&mut r, (b.w, b.h), b.channels).into_chunks_mut(b.bs, b.step).nth(which).unwrap();
    let (xr, yr, ch) = (chunk.x_range, chunk.y_range, chunk.channel);
    let dc = b.dc && xr.0 == 0 && yr.0 == 0;
    let ok = {
        let mut inp = &s[..];
        let mut rd = BitsIOReader::new(&mut inp);
        decode(chunk, &mut rd, b.scheme, b.q, dc, b.chroma).is_ok()
    };
    let mut d = 0i16;
    for c in 0..b.channels {
        for y in 0..b.h {
            for x in 0..b.w {
                let i = (c * b.h + y) * b.w + x;
                let inside = c == ch && x >= xr.0 && x < xr.1 && y >= yr.0 && y < yr.1;
                let level = x % b.step == 0 && y % b.step == 0 && !(x % (2 * b.step) == 0 && y % (2 * b.step) == 0);
                if !(inside && (level || (dc && x == xr.0 && y == yr.0))) {
                    d |= r[i] ^ before[i];
                }
            }
        }
    }
    sym::check(d == 0, 611);
    if ok {
        sym::reach(1);
    } else {
        sym::reach(2);
    }
}
