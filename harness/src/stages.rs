//! The stages of the public interface put together by the caller.
use crate::cfg::*;
use crate::e2e::same;
use crate::sym;
use gfwx::*;
use std::io;

/// A source that hands out at most `step` bytes at a time.
struct Drip<'a> {
    data: &'a [u8],
    step: usize,
}
impl<'a> io::Read for Drip<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.step).min(self.data.len());
        for i in 0..n {
            b[i] = self.data[i];
        }
        self.data = &self.data[n..];
        Ok(n)
    }
}

/// A destination that takes at most `step` bytes at a time.
struct Sink {
    data: Vec<u8>,
    step: usize,
}
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.step);
        for i in 0..n {
            self.data.push(b[i]);
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Header, metadata, colour program and image data written stage by stage (with sources and destinations that take a few
/// bytes at a time) equal what the simple calls write, and read back the same way. params: cfg, 14 = downsampling,
/// 15 = words of metadata, 16 = bytes per transfer
#[no_mangle]
pub fn h_stages() {
    let c = cfg();
    let d = sym::param(14) as usize;
    let words = sym::param(15) as usize;
    let step = sym::param(16).max(1) as usize;
    let image = c.image();
    let p = c.program();
    let total = c.channels as usize * c.layers as usize;
    let mut header = c.header();
    header.metadata_size = 4 * words as u32;
    let mut meta = vec![0u8; 4 * words];
    for i in 0..meta.len() {
        meta[i] = if i < 2 { sym::any_u8() } else { hash(i as u64) as u8 };
    }

    // simple, without metadata
    let plain = c.header();
    let mut whole = vec![0u8; 2048 + 8 * image.len()];
    let n = match compress_simple(&image, &plain, &p, &mut whole) {
        Ok(n) => n,
        Err(_) => {
            sym::check(false, 1701);
            return;
        }
    };
    let whole = &whole[..n];

    // stage by stage
    let mut out = Sink { data: vec![], step };
    sym::check(header.encode(&mut out).is_ok(), 1702);
    sym::check(out.data.len() == 32, 1703);
    sym::check(io::Write::write_all(&mut out, &meta).is_ok(), 1704);
    let chroma = match p.encode(total, &mut out) {
        Ok(v) => v,
        Err(_) => {
            sym::check(false, 1705);
            return;
        }
    };
    for k in 0..total {
        sym::check(chroma[k] == p.iter().any(|t| t.dest_channel == k && t.is_chroma), 1706);
    }
    let service = out.data.len();
    let mut aux = vec![0i16; image.len()];
    p.transform_and_to_planar(&image, &header, &mut aux);
    let mut body = vec![0u8; 2048 + 8 * image.len()];
    let m = match compress_aux_data(&mut aux, &header, &chroma, &mut body) {
        Ok(m) => m,
        Err(_) => {
            sym::check(false, 1707);
            return;
        }
    };
    let mut data = out.data;
    data.extend_from_slice(&body[..m]);
    sym::check(data.len() == n + 4 * words, 1708);
    sym::check(same(&data[..28], &whole[..28]), 1709);
    sym::check(data[28] == words as u8 && data[29] == 0 && data[30] == 0 && data[31] == 0, 1710);
    sym::check(same(&data[32..32 + 4 * words], &meta), 1711);
    sym::check(same(&data[32 + 4 * words..], &whole[32..]), 1712);

    // reading: stage by stage from a source
    let mut src = Drip { data: &data, step };
    let h2 = match Header::decode(&mut src) {
        Ok(h) => h,
        Err(_) => {
            sym::check(false, 1713);
            return;
        }
    };
    sym::check(src.data.len() == data.len() - 32, 1714);
    sym::check(h2 == header && h2.metadata_size as usize == 4 * words, 1715);
    let mut skip = vec![0u8; h2.metadata_size as usize];
    sym::check(io::Read::read_exact(&mut src, &mut skip).is_ok(), 1716);
    sym::check(same(&skip, &meta), 1717);
    let rest = src.data;
    let mut flags = vec![false; total];
    let p2 = match ColorTransformProgram::decode(&mut src, &mut flags) {
        Ok(p) => p,
        Err(_) => {
            sym::check(false, 1718);
            return;
        }
    };
    sym::check(data.len() - src.data.len() == service, 1719);
    for k in 0..total {
        sym::check(flags[k] == chroma[k], 1720);
    }
    let size = h2.get_decompress_buffer_size(d);
    let mut aux = vec![0i16; h2.get_downsampled_image_size(d)];
    // the test mode looks without touching
    let mark = 12345i16;
    let mut quiet = vec![mark; aux.len()];
    let t = decompress_aux_data(src.data, &h2, &flags, d, true, &mut quiet);
    let mut moved = 0i16;
    for i in 0..quiet.len() {
        moved |= quiet[i] ^ mark;
    }
    sym::check(moved == 0, 1721);
    let r = decompress_aux_data(src.data, &h2, &flags, d, false, &mut aux);
    match (t, r) {
        (Ok(0), Ok(0)) => {}
        _ => sym::check(false, 1722),
    }
    let mut a = vec![0x11u8; size];
    p2.detransform_and_to_interleaved(&mut aux, &h2, h2.get_downsampled_channel_size(d), &mut a);

    // the simple call behind the metadata, and on the plain stream
    let mut b = vec![0x22u8; size + 3];
    match decompress_simple(rest, &h2, d, false, &mut b) {
        Ok(v) => sym::check(v == 0, 1723),
        Err(_) => sym::check(false, 1724),
    }
    sym::check(b[size] == 0x22 && b[size + 1] == 0x22 && b[size + 2] == 0x22, 1725);
    sym::check(same(&a, &b[..size]), 1726);
    let mut e = vec![0x33u8; size];
    match decompress_simple(&whole[32..], &plain, d, false, &mut e) {
        Ok(v) => sym::check(v == 0, 1727),
        Err(_) => sym::check(false, 1728),
    }
    sym::check(same(&a, &e), 1729);
    for i in 0..size {
        sym::observe(a[i] as u64);
    }
    // bytes behind the image data are no part of it
    let mut more = data.clone();
    for i in 0..7 {
        more.push(sym::u(8, if i == 0 { 0 } else { 200 }, if i == 0 { 255 } else { 200 }) as u8);
    }
    let mut f = vec![0x44u8; size];
    match decompress_simple(&more[32 + 4 * words..], &h2, d, false, &mut f) {
        Ok(v) => sym::check(v == 0, 1730),
        Err(_) => sym::check(false, 1731),
    }
    sym::check(same(&a, &f), 1732);
    sym::reach(1);
}
