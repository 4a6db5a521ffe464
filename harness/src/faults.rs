//! Sources and destinations that interrupt, shorten, end or fail transfers.
use crate::blocks::coef;
use crate::cfg::*;
use crate::e2e::same;
use crate::program::program;
use crate::sym;
use gfwx::bits::*;
use gfwx::encode::{decode, encode};
use gfwx::errors::HeaderErr;
use gfwx::processing::image::Image;
use gfwx::*;
use std::io::{self, ErrorKind};

/// What goes wrong at which transfer. Everything is symbolic.
struct Plan {
    at: [u64; 3],
    kind: [u64; 3],
    calls: u64,
    step: usize,
    hard: Option<ErrorKind>,
}

impl Plan {
    /// params: 0 = transfers among which the faults fall, 1 = bytes per transfer, 2 = number of faults (0..=3)
    fn new() -> Plan {
        let n = sym::param(0) as u64;
        let mut p = Plan { at: [u64::MAX; 3], kind: [0; 3], calls: 0, step: sym::param(1).max(1) as usize, hard: None };
        for k in 0..sym::param(2) as usize {
            p.at[k] = sym::u(8, 0, n);
            p.kind[k] = sym::u(8, 0, 5);
        }
        p
    }
    /// How many of `n` bytes the next transfer moves.
    fn next(&mut self, n: usize, end: ErrorKind) -> io::Result<usize> {
        let c = self.calls;
        self.calls += 1;
        let all = n.min(self.step);
        for k in 0..3 {
            if self.at[k] == c {
                let hard = match self.kind[k] {
                    0 => return Ok(all.min(1)),
                    1 => return Err(ErrorKind::Interrupted.into()),
                    2 => ErrorKind::TimedOut,
                    3 => ErrorKind::WouldBlock,
                    4 => ErrorKind::BrokenPipe,
                    _ => {
                        if n > 0 && self.hard.is_none() {
                            self.hard = Some(end);
                        }
                        return Ok(0);
                    }
                };
                if self.hard.is_none() {
                    self.hard = Some(hard);
                }
                return Err(hard.into());
            }
        }
        Ok(all)
    }
}

struct Source<'a> {
    data: &'a [u8],
    plan: Plan,
}
impl<'a> io::Read for Source<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = self.plan.next(b.len().min(self.data.len()), ErrorKind::UnexpectedEof)?;
        for i in 0..n {
            b[i] = self.data[i];
        }
        self.data = &self.data[n..];
        Ok(n)
    }
}

struct Sink {
    data: Vec<u8>,
    plan: Plan,
}
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.plan.next(b.len(), ErrorKind::WriteZero)?;
        for i in 0..n {
            self.data.push(b[i]);
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// The result of writing fits what the destination did.
fn judge_write(out: &Sink, r: Result<(), ErrorKind>, full: &[u8], id: u32) {
    match out.plan.hard {
        Some(k) => {
            sym::check(r == Err(k), id);
            sym::check(out.data.len() <= full.len() && same(&out.data, &full[..out.data.len()]), id + 1);
            sym::reach(1);
        }
        None => {
            sym::check(r == Ok(()), id + 2);
            sym::check(out.data.len() == full.len() && same(&out.data, full), id + 3);
            sym::reach(2);
        }
    }
}

/// A header through a failing destination and source. params: plan, 3 = width, 4 = height
#[no_mangle]
pub fn h_fault_header() {
    let (w, h) = (sym::param(3) as u32, sym::param(4) as u32);
    let q = sym::u(16, 1, 1024) as u16;
    let b = HeaderBuilder {
        width: w,
        height: h,
        layers: 3,
        channels: 4,
        quality: q,
        chroma_scale: 7,
        block_size: 9,
        filter: Filter::Cubic,
        encoder: Encoder::Fast,
        intent: Intent::BGRA,
        metadata_size: 12,
    };
    let header = match b.build() {
        Ok(h) => h,
        Err(_) => {
            sym::check(false, 1901);
            return;
        }
    };
    let mut full: Vec<u8> = vec![];
    sym::check(header.encode(&mut full).is_ok(), 1902);
    sym::check(full.len() == 32, 1903);
    if sym::choose(2) == 0 {
        let mut out = Sink { data: vec![], plan: Plan::new() };
        let r = header.encode(&mut out).map_err(|e| e.kind());
        judge_write(&out, r, &full, 1904);
    } else {
        let mut src = Source { data: &full, plan: Plan::new() };
        let r = Header::decode(&mut src);
        match (src.plan.hard, r) {
            (Some(k), Err(HeaderErr::IOErr(e))) => {
                sym::check(e.kind() == k, 1908);
                sym::reach(3);
            }
            (None, Ok(h)) => {
                sym::check(h == header, 1909);
                sym::check(src.data.len() == 0, 1910);
                sym::reach(4);
            }
            _ => sym::check(false, 1911),
        }
    }
}

/// A colour program through a failing destination and source. params: plan, 3 = program, 4 = channels, 5 = factor is symbolic
#[no_mangle]
pub fn h_fault_program() {
    let mut p = program(sym::param(3));
    let total = sym::param(4) as usize;
    let extra = sym::param(5) as usize;
    for k in 0..extra {
        let f = if k == 0 { sym::i32_in(-3, 3) as isize } else { hash(k as u64) as isize % 90 };
        p.add_channel_transform(
            ChannelTransformBuilder::with_dest_channel(k % total).add_channel_factor((k + 1) % total, f).set_denominator(1 + k as isize).build(),
        );
    }
    let mut full: Vec<u8> = vec![];
    let chroma = match p.encode(total, &mut full) {
        Ok(c) => c,
        Err(_) => {
            sym::check(false, 1921);
            return;
        }
    };
    if sym::choose(2) == 0 {
        let mut out = Sink { data: vec![], plan: Plan::new() };
        let r = match p.encode(total, &mut out) {
            Ok(c) => {
                sym::check(c == chroma, 1922);
                Ok(())
            }
            Err(e) => Err(e.kind()),
        };
        judge_write(&out, r, &full, 1924);
    } else {
        let mut flags = vec![false; total];
        let mut src = Source { data: &full, plan: Plan::new() };
        let r = ColorTransformProgram::decode(&mut src, &mut flags);
        match (src.plan.hard, r) {
            (Some(k), Err(DecompressError::IOErr(e))) => {
                sym::check(e.kind() == k, 1928);
                sym::reach(3);
            }
            (None, Ok(p2)) => {
                sym::check(src.data.len() == 0, 1929);
                sym::check(flags == chroma, 1930);
                let mut again: Vec<u8> = vec![];
                sym::check(p2.encode(total, &mut again).is_ok(), 1931);
                sym::check(again.len() == full.len() && same(&again, &full), 1932);
                sym::reach(4);
            }
            _ => sym::check(false, 1933),
        }
    }
}

/// The coefficients of an area through a failing destination and source.
/// params: plan, 3 = w, 4 = h, 5 = encoder, 6 = q, 7 = with dc, 8 = chroma, 9 = pattern
#[no_mangle]
pub fn h_fault_block() {
    let (w, h) = (sym::param(3) as usize, sym::param(4) as usize);
    let scheme = encoder(sym::param(5));
    let (q, dc, chroma, pat) = (sym::param(6) as i32, sym::param(7) != 0, sym::param(8) != 0, sym::param(9));
    let mut a = vec![0i16; w * h];
    for i in 0..w * h {
        a[i] = coef(pat, i);
    }
    a[w * h / 2] = sym::i16_in(-1, 1);
    let orig = a.clone();
    let mut full: Vec<u8> = vec![];
    {
        let chunk = Image::from_slice(&mut a, (w, h), 1).into_chunks_mut(w.max(h), 1).next().unwrap();
        let mut s = BitsIOWriter::new(&mut full);
        sym::check(encode(&chunk, &mut s, scheme, q, dc, chroma).is_ok(), 1941);
        sym::check(s.flush_write_word().is_ok(), 1942);
    }
    if sym::choose(2) == 0 {
        let mut out = Sink { data: vec![], plan: Plan::new() };
        let r = {
            let chunk = Image::from_slice(&mut a, (w, h), 1).into_chunks_mut(w.max(h), 1).next().unwrap();
            let mut s = BitsIOWriter::new(&mut out);
            match encode(&chunk, &mut s, scheme, q, dc, chroma) {
                Ok(()) => s.flush_write_word().map_err(|e| e.kind()),
                Err(e) => Err(e.kind()),
            }
        };
        judge_write(&out, r, &full, 1943);
    } else {
        let mut back = orig.clone();
        for y in 0..h {
            for x in 0..w {
                if (x | y) & 1 == 1 || (dc && x == 0 && y == 0) {
                    back[y * w + x] = 0;
                }
            }
        }
        let mut src = Source { data: &full, plan: Plan::new() };
        let r = {
            let chunk = Image::from_slice(&mut back, (w, h), 1).into_chunks_mut(w.max(h), 1).next().unwrap();
            let mut s = BitsIOReader::new(&mut src);
            decode(chunk, &mut s, scheme, q, dc, chroma)
        };
        match (src.plan.hard, r) {
            (Some(k), Err(e)) => {
                sym::check(e.kind() == k, 1948);
                sym::reach(3);
            }
            (None, Ok(())) => {
                let mut bad = 0i16;
                for i in 0..w * h {
                    bad |= back[i] ^ orig[i];
                }
                sym::check(bad == 0, 1949);
                sym::reach(4);
            }
            _ => sym::check(false, 1950),
        }
    }
}
