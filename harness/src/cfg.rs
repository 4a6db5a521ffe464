//! Job configuration shared by the whole-codec harnesses.
pub use crate::program::program;
use crate::sym;
use gfwx::*;

pub struct Cfg {
    pub w: u32,
    pub h: u32,
    pub layers: u16,
    pub channels: u16,
    pub encoder: Encoder,
    pub filter: Filter,
    pub block: u8,
    pub quality: u16,
    pub chroma_scale: u8,
    pub program: i64,
    pub pattern: i64,
    /// number of symbolic samples (-k: one, within k values of the pattern's), position of the first one, distance between them
    pub nsym: i64,
    pub first: usize,
    pub stride: usize,
}

pub fn encoder(i: i64) -> Encoder {
    match i {
        0 => Encoder::Turbo,
        1 => Encoder::Fast,
        _ => Encoder::Contextual,
    }
}
pub fn filter(i: i64) -> Filter {
    match i {
        0 => Filter::Linear,
        _ => Filter::Cubic,
    }
}

/// params 0..=13: w,h,layers,channels,encoder,filter,block,quality,chroma_scale,program,pattern,nsym,first,stride
pub fn cfg() -> Cfg {
    cfg_at(0)
}

/// The same with the parameters from `base` on.
pub fn cfg_at(base: u32) -> Cfg {
    let p = |i: u32| sym::param(base + i);
    Cfg {
        w: p(0) as u32,
        h: p(1) as u32,
        layers: p(2) as u16,
        channels: p(3) as u16,
        encoder: encoder(p(4)),
        filter: filter(p(5)),
        block: p(6) as u8,
        quality: p(7) as u16,
        chroma_scale: p(8) as u8,
        program: p(9),
        pattern: p(10),
        nsym: p(11),
        first: p(12) as usize,
        stride: p(13) as usize,
    }
}

impl Cfg {
    pub fn header(&self) -> Header {
        match (HeaderBuilder {
            width: self.w,
            height: self.h,
            layers: self.layers,
            channels: self.channels,
            quality: self.quality,
            chroma_scale: self.chroma_scale,
            block_size: self.block,
            filter: self.filter,
            encoder: self.encoder,
            intent: crate::program::some_intent(self.w, self.h, self.channels, self.quality),
            metadata_size: 0,
        })
        .build()
        {
            Ok(h) => h,
            Err(_) => {
                sym::check(false, 1);
                loop {}
            }
        }
    }
    pub fn program(&self) -> ColorTransformProgram {
        program(self.program)
    }
    pub fn len(&self) -> usize {
        self.w as usize * self.h as usize * self.layers as usize * self.channels as usize
    }
    /// A patterned image with `nsym` arbitrary samples.
    pub fn image(&self) -> Vec<u8> {
        let n = self.len();
        let mut v = vec![0u8; n];
        for i in 0..n {
            v[i] = pattern(self.pattern, i, self.w as usize * self.channels as usize);
        }
        let mut at = self.first;
        for _ in 0..if self.nsym < 0 { 1 } else { self.nsym } {
            if n > 0 {
                // a negative number: one sample in a range of that many values
                v[at % n] = if self.nsym > 0 {
                    sym::any_u8()
                } else {
                    let lo = (v[at % n] as i64).min(256 + self.nsym) as u64;
                    sym::u(8, lo, lo + (-self.nsym - 1) as u64) as u8
                };
            }
            at += self.stride;
        }
        v
    }
}

pub fn hash(i: u64) -> u64 {
    let mut x = i.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(0x1234_5678_9abc_def1);
    x ^= x >> 29;
    x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x ^= x >> 32;
    x
}

pub fn pattern(id: i64, i: usize, row: usize) -> u8 {
    let (x, y) = (i % row, i / row);
    match id {
        0 => 0,
        1 => 128,
        2 => (x * 5 + y * 3 + 20) as u8,
        3 => hash(i as u64) as u8,
        4 => {
            if (x + y) % 2 == 0 {
                0
            } else {
                255
            }
        }
        5 => 255,
        6 => {
            if x % 5 == 0 {
                200
            } else {
                40
            }
        }
        // mostly flat with rare noise
        7 => {
            if hash(i as u64) % 7 == 0 {
                100 + (hash(i as u64 + 99) % 8) as u8
            } else {
                100
            }
        }
        // a smooth checkerboard of high contrast (the largest coefficients the codec makes), on its own and beside a flat area
        20 | 21 => {
            let wave = |p: usize| if p % 16 < 8 { 8 - 2 * (p % 16) as i64 } else { 2 * (p % 16) as i64 - 24 };
            if id == 21 && (x >= 32 || y >= 40) {
                127
            } else {
                (wave(x) * wave(y) * 8 + 128).max(0).min(255) as u8
            }
        }
        k => (hash(i as u64 + (k as u64) * 7919) % 64) as u8 + 90,
    }
}
