//! The single-threaded build of the codec behind a C interface, to be compared with the parallel one.
use gfwx::*;

#[path = "../../harness/src/program.rs"]
mod program;

unsafe fn header(p: *const i64) -> Header {
    let p = std::slice::from_raw_parts(p, 14);
    HeaderBuilder {
        width: p[0] as u32,
        height: p[1] as u32,
        layers: p[2] as u16,
        channels: p[3] as u16,
        encoder: match p[4] {
            0 => Encoder::Turbo,
            1 => Encoder::Fast,
            _ => Encoder::Contextual,
        },
        filter: if p[5] == 0 { Filter::Linear } else { Filter::Cubic },
        block_size: p[6] as u8,
        quality: p[7] as u16,
        chroma_scale: p[8] as u8,
        intent: program::some_intent(p[0] as u32, p[1] as u32, p[3] as u16, p[7] as u16),
        metadata_size: 0,
    }
    .build()
    .unwrap()
}

/// Bytes written, or -1.
#[no_mangle]
pub unsafe extern "C" fn serial_compress(p: *const i64, image: *const u8, n: usize, out: *mut u8, cap: usize) -> i64 {
    let h = header(p);
    let image = std::slice::from_raw_parts(image, n);
    let out = std::slice::from_raw_parts_mut(out, cap);
    match compress_simple(image, &h, &program::program(*p.add(9)), out) {
        Ok(n) => n as i64,
        Err(_) => -1,
    }
}

/// Next point of interest, or -1.
#[no_mangle]
pub unsafe extern "C" fn serial_decompress(p: *const i64, data: *const u8, n: usize, d: usize, test: bool, out: *mut u8, cap: usize) -> i64 {
    let h = header(p);
    let data = std::slice::from_raw_parts(data, n);
    let out = std::slice::from_raw_parts_mut(out, cap);
    match decompress_simple(data, &h, d, test, out) {
        Ok(n) => n as i64,
        Err(_) => -1,
    }
}
