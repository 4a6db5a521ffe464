//! Bit streams and the integer codes on top of them.
use crate::sym;
use gfwx::bits::{BitsIOReader, BitsIOWriter, BitsReader, BitsWriter};
use gfwx::encode::*;

const N: usize = 64;

/// A value behind `off` arbitrary bits and in front of one more code, for each of the three codes.
/// params: 0 = code (0 unsigned, 1 interleaved, 2 signed), 1 = pot, 2 = lo, 3 = hi, 4 = offset in bits, 5 = tail width
#[no_mangle]
pub fn h_code() {
    let kind = sym::param(0);
    let pot = sym::param(1) as u32;
    let (lo, hi) = (sym::param(2), sym::param(3));
    let off = sym::param(4) as u32;
    let tail = sym::param(5) as u32;
    let x = if kind == 0 { sym::u(32, lo as u64, hi as u64) as i64 } else { sym::i32_in(lo, hi) as i64 };
    let before = if off > 0 { sym::u(off, 0, (1 << off) - 1) as u32 } else { 0 };
    let after = if tail > 0 { sym::u(tail, 0, (1u64 << tail) - 1) as u32 } else { 0 };
    let mut buf = [0u8; N];
    let left;
    {
        let mut out = &mut buf[..];
        {
            let mut w = BitsIOWriter::new(&mut out);
            if off > 0 {
                sym::check(w.put_bits(before, off).is_ok(), 10);
            }
            let r = match kind {
                0 => unsigned_code(x as u32, &mut w, pot),
                1 => interleaved_code(x as i32, &mut w, pot),
                _ => signed_code(x as i32, &mut w, pot),
            };
            sym::check(r.is_ok(), 11);
            if tail > 0 {
                sym::check(w.put_bits(after, tail).is_ok(), 12);
            }
            sym::check(w.flush_write_word().is_ok(), 13);
        }
        left = out.len();
    }
    let used = N - left;
    sym::observe(used as u64);
    for i in 0..used {
        sym::observe(buf[i] as u64);
    }
    sym::check(used % 4 == 0, 14);
    let mut inp = &buf[..used];
    {
        let mut r = BitsIOReader::new(&mut inp);
        if off > 0 {
            match r.get_bits(off) {
                Ok(v) => sym::check(v == before, 15),
                Err(_) => sym::check(false, 15),
            }
        }
        let y = match kind {
            0 => unsigned_decode(&mut r, pot).map(|v| v as i64),
            1 => interleaved_decode(&mut r, pot).map(|v| v as i64),
            _ => signed_decode(&mut r, pot).map(|v| v as i64),
        };
        match y {
            Ok(y) => sym::check(y == x, 16),
            Err(_) => sym::check(false, 17),
        }
        if tail > 0 {
            match r.get_bits(tail) {
                Ok(v) => sym::check(v == after, 18),
                Err(_) => sym::check(false, 18),
            }
        }
    }
    // the reader took every word and no more
    sym::check(inp.is_empty(), 19);
    sym::reach(1);
}

/// An independent statement of the limited-length Golomb-Rice format: the emitted bits, most significant first.
/// params: 0 = code, 1 = pot, 2 = lo, 3 = hi
#[no_mangle]
pub fn h_code_format() {
    let kind = sym::param(0);
    let pot = sym::param(1) as u32;
    let (lo, hi) = (sym::param(2), sym::param(3));
    let x = if kind == 0 { sym::u(32, lo as u64, hi as u64) as i64 } else { sym::i32_in(lo, hi) as i64 };
    let mut buf = [0u8; N];
    let left;
    {
        let mut out = &mut buf[..];
        {
            let mut w = BitsIOWriter::new(&mut out);
            let r = match kind {
                0 => unsigned_code(x as u32, &mut w, pot),
                1 => interleaved_code(x as i32, &mut w, pot),
                _ => signed_code(x as i32, &mut w, pot),
            };
            sym::check(r.is_ok(), 11);
            sym::check(w.flush_write_word().is_ok(), 13);
        }
        left = out.len();
    }
    // magnitude to be coded
    let mut m: i64 = match kind {
        0 => x,
        1 => {
            if x > 0 {
                2 * x - 1
            } else {
                -2 * x
            }
        }
        _ => {
            if x < 0 {
                -x
            } else {
                x
            }
        }
    };
    let mut pos = 0usize;
    let mut p = pot;
    let bit = |pos: usize| -> u64 {
        // 32-bit little-endian words, filled from the top
        let b = buf[(pos / 32) * 4 + 3 - (pos % 32) / 8];
        (b >> (7 - pos % 8)) as u64 & 1
    };
    // escapes: twelve zeros each
    let mut bad = 0u64;
    while m >> p >= 12 {
        for _ in 0..12 {
            bad |= bit(pos);
            pos += 1;
        }
        m -= 12i64 << p;
        p = if p < 20 { p + 4 } else { 24 };
    }
    let mut y = sym::concretize((m >> p) as u64);
    while y > 0 {
        bad |= bit(pos);
        pos += 1;
        y -= 1;
    }
    bad |= bit(pos) ^ 1;
    pos += 1;
    let mut k = p;
    while k > 0 {
        k -= 1;
        bad |= bit(pos) ^ ((m >> k) as u64 & 1);
        pos += 1;
    }
    if kind == 2 && x != 0 {
        bad |= bit(pos) ^ (x > 0) as u64;
        pos += 1;
    }
    sym::check(N - left == (pos + 31) / 32 * 4, 20);
    while pos % 32 != 0 {
        bad |= bit(pos);
        pos += 1;
    }
    sym::check(bad == 0, 21);
    sym::reach(1);
}

/// A sequence of fields of given widths: bytes are the concatenation in 32-bit little-endian words, most significant
/// bit first; reading gives the fields back. params: 0 = count, 1.. = widths (1..=31), then 40 = 1 to flush after field 41
#[no_mangle]
pub fn h_bits() {
    let n = sym::param(0) as usize;
    let flush_at = sym::param(20);
    let mut vals = [0u32; 16];
    let mut wid = [0u32; 16];
    let mut total = 0usize;
    let mut model = [0u64; 512];
    for i in 0..n {
        wid[i] = sym::param(1 + i as u32) as u32;
        vals[i] = sym::u(wid[i], 0, (1u64 << wid[i]) - 1) as u32;
        for b in 0..wid[i] {
            model[total] = (vals[i] >> (wid[i] - 1 - b)) as u64 & 1;
            total += 1;
        }
        if flush_at == i as i64 + 1 {
            total = (total + 31) / 32 * 32;
        }
    }
    let mut buf = [0u8; N];
    let left;
    {
        let mut out = &mut buf[..];
        {
            let mut w = BitsIOWriter::new(&mut out);
            for i in 0..n {
                sym::check(w.put_bits(vals[i], wid[i]).is_ok(), 30);
                if flush_at == i as i64 + 1 {
                    sym::check(w.flush_write_word().is_ok(), 31);
                }
            }
            sym::check(w.flush_write_word().is_ok(), 31);
            // flushing twice writes nothing more
            sym::check(w.flush_write_word().is_ok(), 31);
        }
        left = out.len();
    }
    let used = N - left;
    sym::check(used == (total + 31) / 32 * 4, 32);
    for i in 0..used {
        sym::observe(buf[i] as u64);
    }
    let mut bad = 0u64;
    for pos in 0..used * 8 {
        let b = buf[(pos / 32) * 4 + 3 - (pos % 32) / 8];
        bad |= model[pos] ^ ((b >> (7 - pos % 8)) as u64 & 1);
    }
    sym::check(bad == 0, 33);
    let mut inp = &buf[..used];
    let mut diff = 0u32;
    {
        let mut r = BitsIOReader::new(&mut inp);
        for i in 0..n {
            match r.get_bits(wid[i]) {
                Ok(v) => diff |= v ^ vals[i],
                Err(_) => sym::check(false, 34),
            }
            if flush_at == i as i64 + 1 {
                r.flush_read_word();
            }
        }
    }
    sym::check(diff == 0, 35);
    sym::reach(1);
}

/// Counting zeros on an arbitrary stream from an arbitrary position agrees with the definition.
/// params: 0 = words, 1 = offset, 2 = limit, 3 = second read width
#[no_mangle]
pub fn h_zeros() {
    let words = sym::param(0) as usize;
    let off = sym::param(1) as u32;
    let max = sym::param(2) as u32;
    let next = sym::param(3) as u32;
    let mut buf = vec![0u8; words * 4];
    sym::bytes(&mut buf);
    let len = words * 32;
    let bit = |pos: usize| -> u32 {
        let b = buf[(pos / 32) * 4 + 3 - (pos % 32) / 8];
        (b >> (7 - pos % 8)) as u32 & 1
    };
    let mut inp = &buf[..];
    let mut r = BitsIOReader::new(&mut inp);
    if off > 0 {
        match r.get_bits(off) {
            Ok(v) => {
                let mut m = 0u32;
                for i in 0..off {
                    m = m << 1 | bit(i as usize);
                }
                sym::check(m == v, 36);
            }
            Err(_) => sym::check(false, 36),
        }
    }
    // the definition
    let mut pos = off as usize;
    let mut zeros = 0;
    let mut short = false;
    loop {
        if pos >= len {
            short = true;
            break;
        }
        let b = bit(pos);
        pos += 1;
        if b == 1 {
            break;
        }
        zeros += 1;
        if zeros == max {
            break;
        }
    }
    match r.get_zeros(max) {
        Ok(z) => {
            sym::check(!short && z == zeros, 37);
            sym::observe(z as u64);
            match r.get_bits(next) {
                Ok(v) => {
                    sym::check(pos + next as usize <= len, 38);
                    let mut m = 0u32;
                    for i in 0..next as usize {
                        if pos + i < len {
                            m = m << 1 | bit(pos + i);
                        }
                    }
                    sym::check(m == v, 39);
                    sym::observe(v as u64);
                }
                Err(_) => sym::check(pos + next as usize > len, 40),
            }
        }
        Err(_) => sym::check(short, 41),
    }
    sym::reach(1);
}

/// Writing into a destination with room for `room` bytes: an error exactly when a full word does not fit.
/// params: 0 = room, 1 = field width, 2 = fields
#[no_mangle]
pub fn h_bits_full() {
    let room = sym::param(0) as usize;
    let wid = sym::param(1) as u32;
    let n = sym::param(2) as usize;
    let mut buf = vec![0u8; room];
    let mut out = &mut buf[..];
    let mut w = BitsIOWriter::new(&mut out);
    let mut total = 0usize;
    for _ in 0..n {
        let v = sym::u(wid, 0, (1u64 << wid) - 1) as u32;
        total += wid as usize;
        let ok = w.put_bits(v, wid).is_ok();
        sym::check(ok == (total / 32 * 4 <= room), 42);
        if !ok {
            sym::reach(1);
            return;
        }
    }
    let ok = w.flush_write_word().is_ok();
    sym::check(ok == ((total + 31) / 32 * 4 <= room), 43);
    sym::reach(1);
}

/// As h_bits, with arbitrary widths. params: 0 = number of fields (at most 4), 1, 2 = range of the widths
#[no_mangle]
pub fn h_bits_widths() {
    let n = sym::param(0) as usize;
    let (lo, hi) = (sym::param(1) as u64, sym::param(2) as u64);
    let mut vals = [0u32; 4];
    let mut wid = [0u32; 4];
    let mut all = 0u128;
    let mut total = 0u32;
    for i in 0..n {
        wid[i] = sym::u(8, lo, hi) as u32;
        vals[i] = sym::any_u32() >> (32 - wid[i]);
        all = all << wid[i] | vals[i] as u128;
        total += wid[i];
    }
    all <<= 128 - total;
    let mut buf = [0u8; 16];
    let left;
    {
        let mut out = &mut buf[..];
        {
            let mut w = BitsIOWriter::new(&mut out);
            for i in 0..n {
                sym::check(w.put_bits(vals[i], wid[i]).is_ok(), 50);
            }
            sym::check(w.flush_write_word().is_ok(), 51);
        }
        left = out.len();
    }
    let used = 16 - left;
    sym::check(used as u32 == (total + 31) / 32 * 4, 52);
    let mut got = 0u128;
    for i in (0..16).step_by(4) {
        got = got << 32 | u32::from_le_bytes([buf[i], buf[i + 1], buf[i + 2], buf[i + 3]]) as u128;
    }
    sym::check(got == all, 53);
    let mut inp = &buf[..used];
    let mut r = BitsIOReader::new(&mut inp);
    for i in 0..n {
        match r.get_bits(wid[i]) {
            Ok(v) => sym::check(v == vals[i], 54),
            Err(_) => sym::check(false, 54),
        }
    }
    sym::reach(1);
}

/// Reading operations in any order on an arbitrary stream do what their definitions say.
/// params: 0 = words (at most 4), 1 = number of operations, then for each: 0 = a field of arbitrary width, 1..=31 = a field of
/// this width, 100 + n = zeros up to n, -1 = to the next word, -2 = one of a narrow field, zeros up to 12, the next word
#[no_mangle]
pub fn h_reader() {
    let words = sym::param(0) as usize;
    let n = sym::param(1) as u32;
    let mut buf = vec![0u8; words * 4];
    sym::bytes(&mut buf);
    let mut all = 0u128;
    for i in 0..4 {
        let v = if i < words { u32::from_le_bytes([buf[4 * i], buf[4 * i + 1], buf[4 * i + 2], buf[4 * i + 3]]) } else { 0 };
        all = all << 32 | v as u128;
    }
    let len = words as u32 * 32;
    let mut pos = 0u32;
    let mut inp = &buf[..];
    let mut r = BitsIOReader::new(&mut inp);
    for k in 0..n {
        let mut op = sym::param(2 + k);
        if op == -2 {
            op = match sym::choose(3) {
                0 => 3,
                1 => 112,
                _ => -1,
            };
        }
        if op == -1 {
            r.flush_read_word();
            pos = (pos + 31) / 32 * 32;
        } else if op < 100 {
            let w = if op == 0 { sym::u(8, 1, 31) as u32 } else { op as u32 };
            match r.get_bits(w) {
                Ok(v) => {
                    sym::check(pos + w <= len, 56);
                    sym::check(pos + w > len || v as u128 == (all << pos) >> (128 - w), 57);
                    sym::observe(v as u64);
                    pos += w;
                }
                Err(_) => {
                    sym::check(pos + w > len, 58);
                    sym::reach(2);
                    return;
                }
            }
        } else {
            let max = op as u32 - 100;
            // the definition
            let mut zeros = 0;
            let mut short = false;
            loop {
                if pos >= len {
                    short = true;
                    break;
                }
                let one = (all << pos) >> 127 != 0;
                pos += 1;
                if one {
                    break;
                }
                zeros += 1;
                if zeros == max {
                    break;
                }
            }
            match r.get_zeros(max) {
                Ok(z) => {
                    sym::check(!short && z == zeros, 59);
                    sym::observe(z as u64);
                }
                Err(_) => {
                    sym::check(short, 60);
                    sym::reach(2);
                    return;
                }
            }
        }
    }
    sym::reach(1);
}
