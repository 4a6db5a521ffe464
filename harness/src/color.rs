//! Colour transforms and the planar/interleaved layouts.
use crate::cfg::*;
use crate::e2e::same;
use crate::sym;
use gfwx::*;

fn header(channels: u16, layers: u16, w: u32, h: u32, quality: u16) -> Header {
    match (HeaderBuilder {
        width: w,
        height: h,
        layers,
        channels,
        quality,
        chroma_scale: 8,
        block_size: 7,
        filter: Filter::Linear,
        encoder: Encoder::Turbo,
        intent: Intent::Generic,
        metadata_size: 0,
    })
    .build()
    {
        Ok(h) => h,
        Err(_) => {
            sym::check(false, 1);
            loop {}
        }
    }
}

/// A program with arbitrary factors: params 4 = number of transforms, 5 = factors each, 6 = bound on factors,
/// 7 = bound on denominators, destinations are a permutation chosen by 8
fn any_program(total: usize, sym_den: bool) -> ColorTransformProgram {
    let n = sym::param(4) as usize;
    let f = sym::param(5) as usize;
    let fb = sym::param(6);
    let db = sym::param(7);
    let rot = sym::param(8) as usize;
    let mut p = ColorTransformProgram::new();
    for t in 0..n {
        let dest = (t * (1 + rot / total) + rot) % total;
        let mut b = ChannelTransformBuilder::with_dest_channel(dest);
        for k in 0..f {
            let src = (dest + 1 + k % (total - 1).max(1)) % total;
            if src != dest {
                b.add_channel_factor(src, sym::i64_in(-fb, fb) as isize);
            }
        }
        let d = if sym_den { sym::i64_in(1, db) } else { db };
        b.set_denominator(d as isize);
        if sym::u(1, 0, 1) == 1 {
            b.set_chroma();
        }
        p.add_channel_transform(b.build());
    }
    p
}

/// The inverse undoes the transform for any samples. params: 0 = w, 1 = h, 2 = channels, 3 = layers, 4.. = program as in
/// any_program, 9 = predefined program or -1, 10 = quality, 11 = 1 planar
#[no_mangle]
pub fn h_color_inverse() {
    let (w, h) = (sym::param(0) as u32, sym::param(1) as u32);
    let (ch, la) = (sym::param(2) as u16, sym::param(3) as u16);
    let total = (ch * la) as usize;
    let p = if sym::param(9) >= 0 { program(sym::param(9)) } else { any_program(total, sym::param(12) == 1) };
    let head = header(ch, la, w, h, sym::param(10) as u16);
    let planar = sym::param(11) == 1;
    let n = head.get_image_size();
    let mut image = vec![0u8; n];
    sym::bytes(&mut image);
    let mut aux = vec![0i16; n];
    if planar {
        p.transform(&image, &head, &mut aux);
    } else {
        p.transform_and_to_planar(&image, &head, &mut aux);
    }
    for i in 0..n {
        sym::observe(aux[i] as u16 as u64);
    }
    let mut out = vec![0u8; n];
    if planar {
        p.detransform(&mut aux, &head, head.get_channel_size(), &mut out);
    } else {
        p.detransform_and_to_interleaved(&mut aux, &head, head.get_channel_size(), &mut out);
    }
    sym::check(same(&out, &image), 801);
    sym::reach(1);
}

/// The planar and the interleaved forms agree, and without a transform they are the boosted samples. params as above
#[no_mangle]
pub fn h_color_layout() {
    let (w, h) = (sym::param(0) as u32, sym::param(1) as u32);
    let (ch, la) = (sym::param(2) as u16, sym::param(3) as u16);
    let total = (ch * la) as usize;
    let p = if sym::param(9) >= 0 { program(sym::param(9)) } else { any_program(total, sym::param(12) == 1) };
    let head = header(ch, la, w, h, sym::param(10) as u16);
    let n = head.get_image_size();
    let cs = head.get_channel_size();
    let mut planar = vec![0u8; n];
    sym::bytes(&mut planar);
    // sample i of channel c of layer l sits at (l * cs + i) * channels + c
    let mut inter = vec![0u8; n];
    for l in 0..la as usize {
        for c in 0..ch as usize {
            for i in 0..cs {
                inter[(l * cs + i) * ch as usize + c] = planar[(l * ch as usize + c) * cs + i];
            }
        }
    }
    let mut a = vec![0i16; n];
    let mut b = vec![0i16; n];
    p.transform(&planar, &head, &mut a);
    p.transform_and_to_planar(&inter, &head, &mut b);
    let mut d = 0i16;
    for i in 0..n {
        d |= a[i] ^ b[i];
        sym::observe(a[i] as u16 as u64);
    }
    sym::check(d == 0, 811);
    // channels the program leaves alone hold the boosted samples; so do all with the plain conversions
    let boost = head.get_boost();
    let mut ok = true;
    for c in 0..total {
        if !p.iter().any(|t| t.dest_channel == c) {
            for i in 0..cs {
                ok &= a[c * cs + i] == planar[c * cs + i] as i16 * boost;
            }
        }
    }
    sym::check(ok, 812);
    let mut q = vec![0u8; n];
    let mut r = vec![0u8; n];
    p.detransform(&mut a, &head, cs, &mut q);
    p.detransform_and_to_interleaved(&mut b, &head, cs, &mut r);
    sym::check(same(&q, &planar) & same(&r, &inter), 813);
    sym::reach(1);
}

/// The format's division: rounds down for 2, 4 and 8, toward zero otherwise.
fn divide(s: i32, d: i32) -> i32 {
    match d {
        2 => s >> 1,
        4 => s >> 2,
        8 => s >> 3,
        _ => s / d,
    }
}

/// The definition: in program order dest += (sum of factor * source) / denominator, on boosted samples, all in 16 bits.
/// params as in h_color_inverse
#[no_mangle]
pub fn h_color_definition() {
    let (w, h) = (sym::param(0) as u32, sym::param(1) as u32);
    let (ch, la) = (sym::param(2) as u16, sym::param(3) as u16);
    let total = (ch * la) as usize;
    let p = if sym::param(9) >= 0 { program(sym::param(9)) } else { any_program(total, sym::param(12) == 1) };
    let head = header(ch, la, w, h, sym::param(10) as u16);
    let n = head.get_image_size();
    let cs = head.get_channel_size();
    let mut planar = vec![0u8; n];
    sym::bytes(&mut planar);
    let mut a = vec![0i16; n];
    p.transform(&planar, &head, &mut a);
    let boost = if sym::param(10) == 1024 { 1i32 } else { 8 };
    let mut m: Vec<i32> = planar.iter().map(|&x| x as i32 * boost).collect();
    for t in p.iter() {
        for i in 0..cs {
            let mut s = 0i32;
            for f in &t.channel_factors {
                s += m[f.src_channel * cs + i] * f.factor as i32;
            }
            // inside 16 bits only: beyond, the checked profile panics and the other one wraps
            sym::assume((s >= -32768) & (s <= 32767));
            let v = m[t.dest_channel * cs + i] + divide(s, t.denominator as i32);
            sym::assume((v >= -32768) & (v <= 32767));
            m[t.dest_channel * cs + i] = v;
        }
    }
    let mut ok = true;
    for i in 0..n {
        ok &= a[i] as i32 == m[i];
    }
    sym::check(ok, 821);
    sym::reach(1);
}

/// Any coefficients: the inverse clamps to 0..=255 after removing the boost. params: 0 = w .. as in h_color_inverse
#[no_mangle]
pub fn h_color_clamp() {
    let (w, h) = (sym::param(0) as u32, sym::param(1) as u32);
    let (ch, la) = (sym::param(2) as u16, sym::param(3) as u16);
    let total = (ch * la) as usize;
    let p = program(sym::param(9));
    let head = header(ch, la, w, h, sym::param(10) as u16);
    let cs = head.get_channel_size();
    let n = head.get_image_size();
    let (lo, hi) = (sym::param(6), sym::param(7));
    let mut a = vec![0i16; n];
    for i in 0..n {
        a[i] = sym::i16_in(lo, hi);
    }
    let mut m: Vec<i32> = a.iter().map(|&x| x as i32).collect();
    let mut b = a.clone();
    // room behind the image stays untouched
    let mut q = vec![7u8; n + 3];
    let mut r = vec![7u8; n + 3];
    p.detransform(&mut a, &head, cs, &mut q);
    p.detransform_and_to_interleaved(&mut b, &head, cs, &mut r);
    let list: Vec<&ChannelTransform> = p.iter().collect();
    for t in list.iter().rev() {
        for i in 0..cs {
            let mut s = 0i32;
            for f in &t.channel_factors {
                s += m[f.src_channel * cs + i] * f.factor as i32;
            }
            m[t.dest_channel * cs + i] -= divide(s, t.denominator as i32);
        }
    }
    let boost = if sym::param(10) == 1024 { 1i32 } else { 8 };
    let (mut ok, mut ok2) = (true, true);
    for c in 0..total {
        for i in 0..cs {
            let v = m[c * cs + i] / boost;
            let v = if v < 0 {
                0
            } else if v > 255 {
                255
            } else {
                v
            };
            ok &= q[c * cs + i] as i32 == v;
            let (l, k) = (c / ch as usize, c % ch as usize);
            ok2 &= r[(l * cs + i) * ch as usize + k] as i32 == v;
        }
    }
    sym::check(ok, 831);
    sym::check(ok2, 832);
    sym::check(q[n] == 7 && q[n + 2] == 7 && r[n] == 7 && r[n + 2] == 7, 833);
    sym::reach(1);
}

/// A program survives serialisation: same transforms, same chroma flags, all bytes consumed.
/// params: 2 = channels in all, 4.. = program, 9 = predefined or -1
#[no_mangle]
pub fn h_color_program() {
    let total = sym::param(2) as usize;
    let p = if sym::param(9) >= 0 { program(sym::param(9)) } else { any_program(total, true) };
    let mut buf = [0u8; 512];
    let n;
    let flags = {
        let mut out = &mut buf[..];
        let r = p.encode(total, &mut out);
        n = 512 - out.len();
        match r {
            Ok(f) => f,
            Err(_) => {
                sym::check(false, 841);
                return;
            }
        }
    };
    sym::observe(n as u64);
    for i in 0..n {
        sym::observe(buf[i] as u64);
    }
    sym::check(n % 4 == 0, 842);
    sym::check(flags.len() == total, 843);
    for c in 0..total {
        sym::check(flags[c] == p.iter().any(|t| t.dest_channel == c && t.is_chroma), 844);
        // a channel that is only marked as chroma is not transformed
        sym::check(p.is_channel_has_transform(c) == p.iter().any(|t| t.dest_channel == c && (t.channel_factors.len() > 0 || t.denominator != 1)), 840);
    }
    let mut inp = &buf[..];
    let mut got = vec![false; total];
    match ColorTransformProgram::decode(&mut inp, &mut got) {
        Ok(d) => {
            sym::check(d == p, 845);
            sym::check(got == flags, 846);
            sym::check(512 - inp.len() == n, 847);
        }
        Err(_) => sym::check(false, 848),
    }
    // a destination that is one byte short is an error
    let mut out = &mut buf[..n - 1];
    sym::check(p.encode(total, &mut out).is_err(), 849);
    sym::reach(1);
}

/// Any bytes as a program: an error, or a program that refers to existing channels and can be applied.
/// params: 0 = bytes, 2 = channels
#[no_mangle]
pub fn h_color_decode_any() {
    let n = sym::param(0) as usize;
    let total = sym::param(2) as usize;
    let mut b = vec![0u8; n];
    sym::bytes(&mut b);
    let mut inp = &b[..];
    let mut flags = vec![false; total];
    match ColorTransformProgram::decode(&mut inp, &mut flags) {
        Ok(p) => {
            let mut chroma = vec![false; total];
            for t in p.iter() {
                sym::check(t.dest_channel < total, 851);
                if t.dest_channel < total {
                    chroma[t.dest_channel] |= t.is_chroma;
                }
                sym::check(t.denominator > 0, 852);
                for f in &t.channel_factors {
                    sym::check(f.src_channel < total, 853);
                }
            }
            sym::check(chroma == flags, 854);
            let head = header(total as u16, 1, 1, 1, 1024);
            let mut aux = vec![0i16; total];
            for i in 0..total {
                aux[i] = 100 + i as i16;
            }
            let mut out = vec![0u8; total];
            p.detransform(&mut aux, &head, 1, &mut out);
            sym::reach(1);
        }
        Err(_) => sym::reach(2),
    }
}

/// interleaved_to_planar and planar_to_interleaved with skipped channels.
/// params: 0 = samples per channel, 1 = channels, 2 = boost, 3 = mask of skipped channels, 4/5 = range of planar values
#[no_mangle]
pub fn h_layout_skip() {
    let cs = sym::param(0) as usize;
    let ch = sym::param(1) as usize;
    let boost = sym::param(2) as i16;
    let mask = sym::param(3);
    let skip: Vec<usize> = (0..ch).filter(|c| mask >> c & 1 == 1).collect();
    let n = cs * ch;
    let mut inter = vec![0u8; n];
    sym::bytes(&mut inter);
    let kept = ch - skip.len();
    let mut planar = vec![-1i16; kept * cs];
    interleaved_to_planar(&inter, ch, boost, &mut planar, &skip);
    let mut ok = true;
    let mut k = 0;
    for c in 0..ch {
        if mask >> c & 1 == 1 {
            continue;
        }
        for i in 0..cs {
            ok &= planar[k * cs + i] == inter[i * ch + c] as i16 * boost;
        }
        k += 1;
    }
    sym::check(ok, 861);
    for i in 0..kept * cs {
        sym::observe(planar[i] as u16 as u64);
    }
    let mut back = vec![9u8; n];
    planar_to_interleaved(&planar, ch, boost, &mut back, &skip);
    let mut ok = true;
    for c in 0..ch {
        for i in 0..cs {
            ok &= if mask >> c & 1 == 1 { back[i * ch + c] == 9 } else { back[i * ch + c] == inter[i * ch + c] };
        }
    }
    sym::check(ok, 862);
    // clamping of arbitrary planar values
    for i in 0..kept * cs {
        planar[i] = sym::i16_in(sym::param(4), sym::param(5));
    }
    planar_to_interleaved(&planar, ch, boost, &mut back, &skip);
    let mut ok = true;
    let mut k = 0;
    for c in 0..ch {
        if mask >> c & 1 == 1 {
            continue;
        }
        for i in 0..cs {
            let v = planar[k * cs + i] as i32 / boost as i32;
            let v = if v < 0 {
                0
            } else if v > 255 {
                255
            } else {
                v
            };
            ok &= back[i * ch + c] as i32 == v;
        }
        k += 1;
    }
    sym::check(ok, 863);
    sym::reach(1);
}

/// Samples of other types than bytes: the transforms accept any sample that fits 16 bits and give values from 0 to 255.
/// params as in h_color_clamp (0 = w .. 3 = layers, 6/7 = range of the samples, 9 = program, 10 = quality)
#[no_mangle]
pub fn h_color_types() {
    let (w, h) = (sym::param(0) as u32, sym::param(1) as u32);
    let (ch, la) = (sym::param(2) as u16, sym::param(3) as u16);
    let total = (ch * la) as usize;
    let p = program(sym::param(9));
    let head = header(ch, la, w, h, sym::param(10) as u16);
    let cs = head.get_channel_size();
    let n = head.get_image_size();
    let boost = if sym::param(10) == 1024 { 1i32 } else { 8 };
    let mut planar = vec![0i16; n];
    for i in 0..n {
        planar[i] = sym::i16_in(sym::param(6), sym::param(7));
    }
    let mut inter = vec![0i16; n];
    for l in 0..la as usize {
        for c in 0..ch as usize {
            for i in 0..cs {
                inter[(l * cs + i) * ch as usize + c] = planar[(l * ch as usize + c) * cs + i];
            }
        }
    }
    let mut m: Vec<i32> = planar.iter().map(|&x| x as i32 * boost).collect();
    for t in p.iter() {
        for i in 0..cs {
            let mut s = 0i32;
            for f in &t.channel_factors {
                s += m[f.src_channel * cs + i] * f.factor as i32;
            }
            m[t.dest_channel * cs + i] += divide(s, t.denominator as i32);
        }
    }
    let mut a = vec![0i16; n];
    let mut b = vec![0i16; n];
    p.transform(&planar, &head, &mut a);
    p.transform_and_to_planar(&inter, &head, &mut b);
    let mut ok = true;
    for i in 0..n {
        ok &= (a[i] as i32 == m[i]) & (b[i] as i32 == m[i]);
        sym::observe(a[i] as u16 as u64);
    }
    sym::check(ok, 871);
    // back into wider samples, which are clamped all the same
    let mut q = vec![7u16; n + 1];
    let mut r = vec![-7i32; n + 1];
    let mut s = vec![7i16; n + 1];
    let mut c = a.clone();
    p.detransform(&mut a, &head, cs, &mut q);
    p.detransform_and_to_interleaved(&mut b, &head, cs, &mut r);
    p.detransform_and_to_interleaved(&mut c, &head, cs, &mut s);
    let mut ok = true;
    for i in 0..n {
        let cut = |v: i16| if v < 0 { 0 } else if v > 255 { 255 } else { v as i32 };
        ok &= (q[i] as i32 == cut(planar[i])) & (r[i] == cut(inter[i])) & (s[i] as i32 == cut(inter[i]));
    }
    sym::check(ok & (q[n] == 7) & (r[n] == -7) & (s[n] == 7), 872);
    sym::reach(1);
}

/// The plain conversions with samples of other types. params as in h_layout_skip (4/5 = range of the samples)
#[no_mangle]
pub fn h_layout_types() {
    let cs = sym::param(0) as usize;
    let ch = sym::param(1) as usize;
    let boost = sym::param(2) as i16;
    let mask = sym::param(3);
    let skip: Vec<usize> = (0..ch).filter(|c| mask >> c & 1 == 1).collect();
    let n = cs * ch;
    let mut inter = vec![0i16; n];
    for i in 0..n {
        inter[i] = sym::i16_in(sym::param(4), sym::param(5));
    }
    let kept = ch - skip.len();
    let mut planar = vec![-1i16; kept * cs];
    interleaved_to_planar(&inter, ch, boost, &mut planar, &skip);
    let mut back = vec![9u32; n];
    let mut back2 = vec![9i8 as i16; n];
    planar_to_interleaved(&planar, ch, boost, &mut back, &skip);
    planar_to_interleaved(&planar, ch, boost, &mut back2, &skip);
    let mut ok = true;
    let mut k = 0;
    for c in 0..ch {
        for i in 0..cs {
            let v = inter[i * ch + c];
            let cut = if v < 0 { 0 } else if v > 255 { 255 } else { v };
            if mask >> c & 1 == 1 {
                ok &= (back[i * ch + c] == 9) & (back2[i * ch + c] == 9);
            } else {
                ok &= (planar[k * cs + i] == v * boost) & (back[i * ch + c] == cut as u32) & (back2[i * ch + c] == cut);
            }
        }
        k += (mask >> c & 1 == 0) as usize;
    }
    sym::check(ok, 881);
    sym::reach(1);
}
