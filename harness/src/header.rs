//! The container header.
use crate::cfg::{encoder, filter};
use crate::sym;
use gfwx::*;

fn intent(i: u64) -> Intent {
    match i {
        0 => Intent::Generic,
        1 => Intent::RGB,
        2 => Intent::RGBA,
        3 => Intent::BGR,
        4 => Intent::BGRA,
        _ => Intent::YUV444,
    }
}
const INTENT_CODE: [u8; 6] = [0, 7, 8, 10, 11, 12];

fn le(b: &[u8], n: usize) -> u64 {
    let mut v = 0u64;
    for i in 0..n {
        v |= (b[i] as u64) << (8 * i);
    }
    v
}

/// params: 0 = 1 when the image size may overflow (then only acceptance is examined)
/// 1 = limit on layers, 2 = limit on channels (0 = all of u16)
#[no_mangle]
pub fn h_header_build() {
    let width = sym::any_u32();
    let height = sym::any_u32();
    let lim = |i| {
        let l = sym::param(i) as u64;
        if l == 0 {
            0xffff
        } else {
            l
        }
    };
    let layers = sym::u(16, 0, lim(1)) as u16;
    let channels = sym::u(16, 0, lim(2)) as u16;
    let quality = sym::any_u16();
    let chroma_scale = sym::any_u8();
    let block_size = sym::any_u8();
    let metadata_size = sym::any_u32();
    let (f, e, i) = if sym::param(3) == 1 { (sym::choose(2), sym::choose(3), sym::choose(6)) } else { (1, 2, 3) };
    let b = HeaderBuilder {
        width,
        height,
        layers,
        channels,
        quality,
        chroma_scale,
        block_size,
        filter: filter(f as i64),
        encoder: encoder(e as i64),
        intent: intent(i),
        metadata_size,
    };
    let valid = (width > 0)
        & (width < 1 << 30)
        & (height > 0)
        & (height < 1 << 30)
        & (layers > 0)
        & (channels > 0)
        & (quality > 0)
        & (quality <= 1024)
        & (chroma_scale > 0)
        & (block_size >= 2)
        & (block_size <= 30)
        & (metadata_size % 4 == 0);
    let h = match b.build() {
        Ok(h) => h,
        Err(_) => {
            // the size of the image does not fit, or a field is out of range
            let px = width as u128 * height as u128 * layers as u128 * channels as u128;
            sym::check(!valid | (px > u64::MAX as u128), 301);
            sym::reach(2);
            return;
        }
    };
    sym::check(valid, 302);
    let ch = width as u64 * height as u64;
    sym::check(h.get_channel_size() as u64 == ch, 303);
    sym::check(h.get_image_size() as u64 == ch.wrapping_mul(layers as u64).wrapping_mul(channels as u64), 304);
    let mut buf = [0xaau8; 36];
    let left = {
        let mut out = &mut buf[..];
        sym::check(h.encode(&mut out).is_ok(), 305);
        out.len()
    };
    sym::check(left == 4, 306);
    // byte layout
    let ok = (buf[0] == b'G')
        & (buf[1] == b'F')
        & (buf[2] == b'W')
        & (buf[3] == b'X')
        & (le(&buf[4..], 4) == 1)
        & (le(&buf[8..], 4) == width as u64)
        & (le(&buf[12..], 4) == height as u64)
        & (le(&buf[16..], 2) == channels as u64 - 1)
        & (le(&buf[18..], 2) == layers as u64 - 1)
        & (le(&buf[20..], 3) == (block_size as u64 - 2) | (chroma_scale as u64 - 1) << 5 | (quality as u64 - 1) << 13)
        & (buf[23] == 7)
        & (buf[24] == INTENT_CODE[i as usize])
        & (buf[25] == e as u8)
        & (buf[26] == 0)
        & (buf[27] == f as u8)
        & (le(&buf[28..], 4) == metadata_size as u64 / 4);
    sym::check(ok, 307);
    sym::reach(1);
}

/// Encode then decode returns the same header and consumes exactly 32 bytes. params as above
#[no_mangle]
pub fn h_header_roundtrip() {
    let lim = |i| {
        let l = sym::param(i) as u64;
        if l == 0 {
            0xffff
        } else {
            l
        }
    };
    let (f, e, i) = if sym::param(3) == 1 { (sym::choose(2), sym::choose(3), sym::choose(6)) } else { (1, 2, 3) };
    let b = HeaderBuilder {
        width: sym::any_u32(),
        height: sym::any_u32(),
        layers: sym::u(16, 0, lim(1)) as u16,
        channels: sym::u(16, 0, lim(2)) as u16,
        quality: sym::any_u16(),
        chroma_scale: sym::any_u8(),
        block_size: sym::any_u8(),
        filter: filter(f as i64),
        encoder: encoder(e as i64),
        intent: intent(i),
        metadata_size: sym::any_u32(),
    };
    let h = match b.build() {
        Ok(h) => h,
        Err(_) => return,
    };
    let mut buf = [0u8; 40];
    let n = {
        let mut out = &mut buf[..];
        sym::check(h.encode(&mut out).is_ok(), 311);
        40 - out.len()
    };
    sym::observe(n as u64);
    for k in 0..n {
        sym::observe(buf[k] as u64);
    }
    let mut inp = &buf[..];
    match Header::decode(&mut inp) {
        Ok(d) => sym::check(d == h, 312),
        Err(_) => sym::check(false, 313),
    }
    sym::check(40 - inp.len() == n, 314);
    // a destination that is too short is an error
    let cut = sym::param(4) as usize;
    if cut < n {
        let mut out = &mut buf[..cut];
        sym::check(h.encode(&mut out).is_err(), 315);
    }
    sym::reach(1);
}

/// Any bytes: decode never panics; what it accepts is in range and encodes back to the same bytes.
/// params: 0 = number of bytes available, 1 = 1 when the magic and the sizes are fixed
#[no_mangle]
pub fn h_header_decode() {
    let n = sym::param(0) as usize;
    let mut b = [0u8; 40];
    for k in 0..n {
        b[k] = sym::any_u8();
    }
    if sym::param(1) == 1 {
        b[..4].copy_from_slice(b"GFWX");
    }
    let mut inp = &b[..n];
    match Header::decode(&mut inp) {
        Ok(h) => {
            sym::reach(1);
            let used = n - inp.len();
            sym::check(
                (h.width > 0)
                    & (h.width < 1 << 30)
                    & (h.height > 0)
                    & (h.height < 1 << 30)
                    & (h.layers > 0)
                    & (h.channels > 0)
                    & (h.quality > 0)
                    & (h.quality <= 1024)
                    & (h.chroma_scale > 0)
                    & (h.block_size >= 2)
                    & (h.block_size <= 30)
                    & (h.bit_depth > 0)
                    & (h.bit_depth <= 8)
                    & !h.is_signed,
                321,
            );
            let mut o = [0u8; 40];
            let m = {
                let mut out = &mut o[..];
                sym::check(h.encode(&mut out).is_ok(), 322);
                40 - out.len()
            };
            sym::check(m == used, 323);
            sym::check(crate::e2e::same(&o[..m], &b[..used]), 324);
        }
        Err(_) => sym::reach(2),
    }
}

/// Sizes derived from a header. params: 0 = downsampling
#[no_mangle]
pub fn h_header_sizes() {
    let d = sym::param(0) as usize;
    let width = sym::u(32, 1, (1 << 30) - 1) as u32;
    let height = sym::u(32, 1, (1 << 30) - 1) as u32;
    let quality = sym::u(16, 1, 1024) as u16;
    let chroma_scale = sym::u(8, 1, 255) as u8;
    let (layers, channels) = (sym::param(1) as u16, sym::param(2) as u16);
    let h = match (HeaderBuilder {
        width,
        height,
        layers,
        channels,
        quality,
        chroma_scale,
        block_size: 7,
        filter: Filter::Cubic,
        encoder: Encoder::Fast,
        intent: Intent::Generic,
        metadata_size: 0,
    })
    .build()
    {
        Ok(h) => h,
        Err(_) => {
            sym::check((width as u128 * height as u128 * layers as u128 * channels as u128) > u64::MAX as u128, 331);
            return;
        }
    };
    let (w, hh) = (h.get_downsampled_width(d) as u64, h.get_downsampled_height(d) as u64);
    // the number of multiples of 2^d below the extent
    sym::check((w << d >= width as u64) & ((w - 1) << d < width as u64), 332);
    sym::check((hh << d >= height as u64) & ((hh - 1) << d < height as u64), 333);
    sym::check(h.get_downsampled_channel_size(d) as u64 == w * hh, 334);
    let sz = (w * hh).wrapping_mul(layers as u64).wrapping_mul(channels as u64);
    sym::check(h.get_downsampled_image_size(d) as u64 == sz, 335);
    sym::check(h.get_decompress_buffer_size(d) as u64 == sz, 336);
    let cq = h.get_chroma_quality() as i64;
    let (q, s) = (quality as i64, chroma_scale as i64);
    // q/s rounded, never below 1
    sym::check(cq >= 1, 337);
    sym::check((cq == 1) | ((2 * cq * s <= 2 * q + s) & (2 * cq * s > 2 * q - s - 1)), 338);
    sym::check((cq > 1) | (2 * q < 3 * s), 339);
    sym::check(h.get_boost() == if quality == 1024 { 1 } else { 8 }, 340);
    sym::observe(cq as u64);
    sym::reach(1);
}

/// A header exists exactly when its image fits the address space, and then its sizes are the true products.
/// params: 0, 1 = layers, channels (0: arbitrary), 2, 3 = width, height (0: arbitrary)
#[no_mangle]
pub fn h_header_fits() {
    let pick = |i, top: u64| match sym::param(i) {
        0 => sym::u(32, 1, top),
        v => v as u64,
    };
    let layers = pick(0, 0xffff);
    let channels = pick(1, 0xffff);
    let width = pick(2, (1 << 30) - 1);
    let height = pick(3, (1 << 30) - 1);
    let r = HeaderBuilder {
        width: width as u32,
        height: height as u32,
        layers: layers as u16,
        channels: channels as u16,
        quality: 1024,
        chroma_scale: 8,
        block_size: 7,
        filter: filter(0),
        encoder: encoder(0),
        intent: Intent::Generic,
        metadata_size: 0,
    }
    .build();
    let want = width as u128 * height as u128 * layers as u128 * channels as u128;
    let fits = want <= u64::MAX as u128;
    match r {
        Ok(h) => {
            sym::check(fits, 341);
            sym::check(h.get_image_size() as u128 == want, 342);
            sym::reach(1);
        }
        Err(_) => {
            sym::check(!fits, 343);
            sym::reach(2);
        }
    }
}
