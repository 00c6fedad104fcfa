//! From stored bytes to sample values: C07 - C11.
use async_tiff::ndarray::NdArray;
use async_tiff::DataType;
use bytes::Bytes;

use super::*;

fn round_trip(s: &mut Src, cx: &mut Cx, sp: &Spec) -> R {
    let n = sp.w * sp.h * sp.spp;
    let seed = s.seed();
    let mut px = samples(seed, n, sp.dt, matches!(sp.codec, Codec::Lerc(_)));
    let mut what = "";
    if sp.codec == Codec::WebP && sp.spp == 4 && s.chance(1, 3) {
        // encoders drop an alpha channel that is opaque everywhere
        px.chunks_exact_mut(4).for_each(|c| c[3] = 255);
        what = "opaque alpha";
    }
    if matches!(sp.codec, Codec::Lerc(_)) && sp.dt.is_float() && s.chance(1, 3) {
        // not-a-number pixels, in all bands of a pixel (LERC refuses mixtures)
        let k = s.us(1, 4);
        for _ in 0..k {
            let i = s.us(0, sp.w * sp.h - 1);
            for b in 0..sp.spp {
                let j = if sp.planar { b * sp.w * sp.h + i } else { i * sp.spp + b };
                match sp.dt {
                    Dt::F32 => px[j * 4..j * 4 + 4].copy_from_slice(&f32::NAN.to_le_bytes()),
                    _ => px[j * 8..j * 8 + 8].copy_from_slice(&f64::NAN.to_le_bytes()),
                }
            }
        }
        what = "NaN samples";
    }
    cx.note(|| format!("{} {what}", sp.show()));
    let Some(parts) = encode_tile(sp, &px) else {
        cx.label("discarded: encoder cannot represent");
        return Ok(());
    };
    let mut parts = parts;
    if matches!(sp.codec, Codec::Deflate | Codec::OldDeflate | Codec::Lzw) && s.chance(1, 6) {
        // both streams say where they end: padding counted into the tile means nothing
        let k = s.us(1, 9);
        let b = if s.chance(1, 2) { 0 } else { s.upto(255) as u8 };
        for p in &mut parts {
            p.resize(p.len() + k, b);
        }
        cx.label("padding after the compressed stream");
    }
    let parts: Vec<Bytes> = parts.into_iter().map(Bytes::from).collect();
    cx.label(sp.codec.name());
    if !what.is_empty() {
        cx.label(what);
    }
    if n >= 4 && px.iter().any(|b| *b != px[0]) {
        cx.nontrivial();
    }
    let mut d = spec_ifd(sp);
    // equivalent spellings of the same directory
    let v = s.upto(15);
    if sp.predictor == 1 && v & 1 != 0 {
        d.remove(tag::PREDICTOR);
    }
    if !sp.planar && v & 2 != 0 {
        d.remove(tag::PLANAR);
    }
    if sp.dt.format() == 1 && v & 4 != 0 {
        d.remove(tag::SAMPLE_FORMAT);
    }
    if v & 8 != 0 {
        // the edge of an image: the tile is still stored in full
        let iw = s.us(1, sp.w) as u32;
        let ih = s.us(1, sp.h) as u32;
        d.set(tag::WIDTH, Val::Long(vec![iw]));
        d.set(tag::LENGTH, Val::Long(vec![ih]));
    }
    if let Codec::Lerc(inner) = sp.codec {
        // the tag: version and inner compression; further values have no meaning
        match s.upto(5) {
            1 if inner == 0 => {
                d.remove(tag::LERC_PARAMS);
            }
            2 => {
                let extra = s.upto(3) as u32;
                d.set(tag::LERC_PARAMS, Val::Long(vec![4, inner as u32, extra]));
            }
            3 => {
                d.set(tag::LERC_PARAMS, Val::Long(vec![s.upto(6) as u32, inner as u32]));
            }
            _ => {}
        }
    }
    let a = ok(&format!("decoding {}", sp.show()), one_tile(d, &parts).decode(endian(sp.big_endian))?)?;
    check_array_nan(&a, sp, &px, what == "NaN samples").map_err(|e| format!("{e} ({})", sp.show()))
}

// ---------------------------------------------------------------- C07

pub const C07: Check = Check {
    id: "C07",
    f: c07,
    quick: 300_000,
    thorough: 6_000_000,
    level: "exploration",
    rule: "non-trivial if the tile has at least 4 samples and not all bytes are equal",
    assumptions: &[
        "encoders: flate2, weezl, zstd, lzma-rust2, libLerc, libwebp, OpenJPEG; the rest of the encoding (predictors, byte order, layout) is the harness's own",
        "multi-byte LERC tiles are only stored in II files; samples LERC or the encoder library itself cannot carry losslessly are discarded",
    ],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

fn c07(s: &mut Src, cx: &mut Cx) -> R {
    let big = s.chance(1, 40);
    if big && s.chance(1, 25) {
        // whole strips and untiled images: a megabyte and more
        let codec = if s.chance(1, 5) { Codec::Lerc(s.upto(2) as u8) } else { *s.pick(&BYTE_CODECS) };
        let dt = *s.pick(&[Dt::U8, Dt::U16, Dt::F32, Dt::I32]);
        let spp = s.us(1, 4);
        let w = s.us(400, 900);
        let huge = s.chance(1, 8);
        let codec = if huge { *s.pick(&[Codec::Deflate, Codec::Zstd, Codec::Lzw, Codec::None, Codec::OldDeflate]) } else { codec };
        let len = if huge { s.us(17_000_000, 36_000_000) } else { s.us(1_100_000, 2_300_000) };
        let h = len / (w * spp * dt.size()) + 1;
        let lerc = matches!(codec, Codec::Lerc(_));
        let predictor = if lerc || s.bool() { 1 } else { 2 };
        let big_endian = s.bool() && !lerc;
        let sp = Spec { w, h, spp, dt, planar: s.chance(1, 3), codec, predictor, big_endian, cfg: s.upto(0xffff) | 0x10 };
        cx.label(if huge { "more than 16 MiB" } else { "more than a megabyte" });
        return round_trip(s, cx, &sp);
    }
    let o = if big {
        SpecOpts { max_side: 300, max_spp: 8, byte_only: false, max_bytes: 200_000 }
    } else {
        SpecOpts { max_side: 40, max_spp: 8, byte_only: false, max_bytes: 6_000 }
    };
    let sp = Spec::gen(s, &o);
    round_trip(s, cx, &sp)
}

// ---------------------------------------------------------------- C08

pub const C08: Check = Check {
    id: "C08",
    f: c08,
    quick: 4_500_000,
    thorough: 60_000_000,
    level: "exploration",
    rule: "non-trivial if the tile has at least 4 samples and not all bytes are equal",
    assumptions: &["reference: the harness's own forward predictors, written from the TIFF 6.0 and Technical Note 3 text"],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

fn c08(s: &mut Src, cx: &mut Cx) -> R {
    let predictor = s.int(2, 3) as u16;
    let dt = if predictor == 2 {
        *s.pick(&DTS)
    } else {
        *s.pick(&[Dt::F32, Dt::F64, Dt::F32, Dt::F64, Dt::U16, Dt::I16, Dt::U32, Dt::I64])
    };
    let spp = if s.bool() { s.us(1, 4) } else { s.us(1, 14) };
    let hyper = s.chance(1, 300);
    let spp = if hyper { s.us(15, 1100) } else { spp };
    let w = if hyper { s.us(1, 4) } else if s.chance(1, 400) { s.us(700, 9000) } else if s.chance(1, 30) { s.us(64, 700) } else { s.us(1, 40) };
    let h = if hyper { s.us(1, 3) } else if w > 40 { s.us(1, 4) } else { s.us(1, 12) };
    let codec = if s.chance(1, 10) { *s.pick(&[Codec::Deflate, Codec::Lzw, Codec::Zstd]) } else { Codec::None };
    let sp = Spec { w, h, spp, dt, planar: s.bool(), codec, predictor, big_endian: s.bool(), cfg: 0 };
    cx.label(format!(
        "predictor {predictor} {:?} {} {}",
        dt,
        if sp.planar { "planar" } else { "chunky" },
        if sp.big_endian { "MM" } else { "II" }
    ));
    round_trip(s, cx, &sp)
}

// ---------------------------------------------------------------- C09

pub const C09: Check = Check {
    id: "C09",
    f: c09,
    quick: 2_400_000,
    thorough: 48_000_000,
    level: "exploration",
    rule: "non-trivial if the payload length is wrong, the sample types are inconsistent or unsupported, or the tile has several bands",
    assumptions: &["excess bytes of one-bit tiles are not judged"],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

fn c09(s: &mut Src, cx: &mut Cx) -> R {
    let spp = if s.chance(1, 300) { s.us(5, 300) } else { s.us(1, 4) };
    let planar = s.bool();
    let side = if spp < 5 && s.chance(1, 200) { 300 } else { 9 };
    let w = s.us(1, side);
    let h = s.us(1, side);
    let big = s.bool();
    // declared types
    let nf = if s.chance(1, 6) { s.us(1, spp) } else { spp };
    let nb = if s.chance(1, 6) { s.us(1, spp) } else { spp };
    let base = *s.pick(&DTS);
    let mut formats = vec![base.format(); nf];
    let mut bits = vec![base.bits(); nb];
    let style = s.weighted(&[6, 1, 1, 1]);
    match style {
        1 => {
            let f = s.int(1, 4) as u16;
            formats.fill(f);
            let b = *s.pick(&[8u16, 16, 32, 64, 1, 2, 4, 7, 12, 17, 24, 48, 65, 0, 128]);
            bits.fill(b);
        }
        2 => {
            let k = s.us(0, nf - 1);
            formats[k] = s.int(1, 4) as u16;
        }
        3 => {
            let k = s.us(0, nb - 1);
            bits[k] = *s.pick(&[8u16, 16, 32, 64, 1, 12]);
        }
        _ => {}
    }
    // our reading of the tags
    let uniform = formats.iter().all(|f| *f == formats[0]) && bits.iter().all(|b| *b == bits[0]);
    let dtype = if !uniform {
        None
    } else {
        match (formats[0], bits[0]) {
            (1, 1) => Some(DataType::Bool),
            (1, 8) => Some(DataType::UInt8),
            (1, 16) => Some(DataType::UInt16),
            (1, 32) => Some(DataType::UInt32),
            (1, 64) => Some(DataType::UInt64),
            (2, 8) => Some(DataType::Int8),
            (2, 16) => Some(DataType::Int16),
            (2, 32) => Some(DataType::Int32),
            (2, 64) => Some(DataType::Int64),
            (3, 32) => Some(DataType::Float32),
            (3, 64) => Some(DataType::Float64),
            _ => None,
        }
    };
    let bands = if planar { spp } else { 1 };
    let samples_per_part = w * h * if planar { 1 } else { spp };
    let size = match dtype {
        // samples of no known type: by their bits, or a byte each
        None if s.bool() => (bits[0] as usize).div_ceil(8).max(1),
        Some(DataType::Bool) | None => 1,
        Some(DataType::UInt8 | DataType::Int8) => 1,
        Some(DataType::UInt16 | DataType::Int16) => 2,
        Some(DataType::UInt32 | DataType::Int32 | DataType::Float32) => 4,
        Some(_) => 8,
    };
    let exact = match dtype {
        Some(DataType::Bool) => samples_per_part.div_ceil(8),
        _ => samples_per_part * size,
    };
    // lengths
    let lens: Vec<usize> = match s.weighted(&[4, 2, 2, 1]) {
        0 => vec![exact; bands],
        1 => {
            let d = [-(size as i64), size as i64, -1, 1, 8, -8, 2 * size as i64][s.us(0, 6)];
            let mut v = vec![exact; bands];
            let k = s.us(0, bands - 1);
            v[k] = (exact as i64 + d).max(0) as usize;
            if s.bool() && bands > 1 {
                // compensated by another band
                let j = (k + 1 + s.us(0, bands - 2)) % bands;
                v[j] = (exact as i64 - d).max(0) as usize;
            }
            v
        }
        2 => {
            // whole rows or bands too many or too few
            let unit = match s.upto(2) {
                0 => w * size,
                1 => exact,
                _ => w * size * spp,
            };
            let l = if s.bool() { exact + unit } else { exact.saturating_sub(unit) };
            let mut v = vec![exact; bands];
            if s.bool() {
                v.fill(l);
            } else {
                let k = s.us(0, bands - 1);
                v[k] = l;
            }
            v
        }
        _ => (0..bands).map(|_| s.us(0, exact * 2 + 3)).collect(),
    };
    let codec = *s.pick(&[Codec::None, Codec::None, Codec::Deflate, Codec::Lzw, Codec::Zstd]);
    let predictor: u16 = match s.upto(5) {
        4 => 2,
        5 if dtype.is_some() && bits[0] >= 16 && formats[0] == 3 => 3,
        _ => 1,
    };
    let raw: Vec<Vec<u8>> = lens.iter().map(|l| bulk(s.seed(), *l)).collect();
    let parts: Vec<Bytes> = raw.iter().map(|r| Bytes::from(compress(codec, 3, r))).collect();
    let mut d = Ifd::default();
    d.set(tag::WIDTH, Val::Long(vec![s.us(1, w) as u32]));
    d.set(tag::LENGTH, Val::Long(vec![s.us(1, h) as u32]));
    d.set(tag::BITS, Val::Short(bits.clone()));
    d.set(tag::COMPRESSION, Val::Short(vec![codec.code()]));
    d.set(tag::PHOTOMETRIC, Val::Short(vec![1]));
    d.set(tag::SPP, Val::Short(vec![spp as u16]));
    d.set(tag::PLANAR, Val::Short(vec![if planar { 2 } else { 1 }]));
    d.set(tag::PREDICTOR, Val::Short(vec![predictor]));
    d.set(tag::TILE_WIDTH, Val::Long(vec![w as u32]));
    d.set(tag::TILE_LENGTH, Val::Long(vec![h as u32]));
    d.set(tag::SAMPLE_FORMAT, Val::Short(formats.clone()));
    let right = lens.iter().all(|l| *l == exact);
    let short_bool = dtype == Some(DataType::Bool) && lens.iter().sum::<usize>() * 8 < w * h * spp;
    cx.note(|| {
        format!("{w}x{h}x{spp} planar {planar}, formats {formats:?}, bits {bits:?}, codec {}, predictor {predictor}, part lengths {lens:?} (exact {exact})", codec.name())
    });
    if !right || dtype.is_none() || spp > 1 {
        cx.nontrivial();
    }
    cx.label(match (dtype, right) {
        (Some(_), true) => "exact length",
        (Some(_), false) => "wrong length",
        (None, _) => "no data type",
    });
    let r = one_tile(d, &parts).decode(endian(big))?;
    let shape = if planar { [spp, h, w] } else { [h, w, spp] };
    match r {
        Ok(a) => {
            ensure(a.shape() == shape, || format!("shape {:?}, expected {shape:?}", a.shape()))?;
            ensure(a.data_type() == dtype, || format!("data type {:?}, expected {dtype:?}", a.data_type()))?;
            ensure(a.data().len() == w * h * spp, || {
                format!("{} elements for shape {shape:?}", a.data().len())
            })?;
            let variant = match dtype {
                None => "UInt8".to_string(),
                Some(d) => format!("{d:?}"),
            };
            ensure(typed_name(a.data()) == variant, || format!("array of {} for {dtype:?}", typed_name(a.data())))?;
            match dtype {
                Some(DataType::Bool) => ensure(!short_bool, || {
                    format!("{lens:?} bytes were enough for {} one-bit samples", w * h * spp)
                }),
                // without a type there is no expected length of its own
                None => Ok(()),
                Some(_) => ensure(right, || {
                    format!("parts of {lens:?} bytes instead of {exact} decoded to an array")
                }),
            }?;
            if predictor == 1 && right && dtype.is_some() && dtype != Some(DataType::Bool) {
                let mut want: Vec<u8> = raw.concat();
                if big && size > 1 {
                    want.chunks_exact_mut(size).for_each(|c| c.reverse());
                }
                let got = typed_bytes(a.data());
                ensure(got == want, || format!("samples differ: {}", first_diff(&got, &want)))?;
            }
            Ok(())
        }
        Err(e) => match dtype {
            Some(DataType::Bool) => ensure(!right || predictor != 1 || (planar && w * h % 8 != 0), || {
                format!("a complete one-bit tile was refused: {e}")
            }),
            None => Ok(()),
            Some(_) => ensure(!right, || format!("a tile of exactly the right length was refused: {e}")),
        },
    }
}

// ---------------------------------------------------------------- C10

pub const C10: Check = Check {
    id: "C10",
    f: c10,
    quick: 9_000_000,
    thorough: 120_000_000,
    level: "exploration",
    rule: "non-trivial if the mask has both set and unset bits, or is too short",
    assumptions: &["rows are whole bytes; bytes beyond the last row are not judged"],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

fn c10(s: &mut Src, cx: &mut Cx) -> R {
    let planar = s.bool();
    let spp = if s.chance(1, 2) { 1 } else { s.us(1, 9) };
    let large = s.chance(1, 300);
    let mut w = if large { s.us(100, 1200) } else { s.us(1, 40) };
    let mut h = if large { s.us(1, 100) } else { s.us(1, 12) };
    let spp = if large && s.chance(1, 500) {
        (w, h) = (s.us(1024, 4200), s.us(1024, 4200));
        spp.min(2)
    } else {
        spp
    };
    let per = if planar { 1 } else { spp };
    if !planar && s.chance(1, 10) {
        return c10_odd(s, cx, w, h, spp);
    }
    while w * per % 8 != 0 {
        w += 1;
    }
    let bands = if planar { spp } else { 1 };
    let bytes = w * per / 8 * h;
    let codec = if s.chance(3, 4) { Codec::None } else { *s.pick(&BYTE_CODECS[1..5]) };
    let short = s.chance(1, 6);
    let seed = s.seed();
    let mut raw: Vec<Vec<u8>> = (0..bands)
        .map(|b| bulk(if seed == 0 { 0 } else { seed + b as u64 }, bytes))
        .collect();
    if seed != 0 && s.bool() {
        // single set bit
        for r in raw.iter_mut() {
            r.fill(0);
        }
        let b = s.us(0, bands - 1);
        let k = s.us(0, bytes * 8 - 1);
        raw[b][k / 8] |= 0x80 >> (k % 8);
    }
    if short {
        let cut = s.us(1, bytes);
        for r in raw.iter_mut() {
            r.truncate(bytes - cut);
        }
    }
    let big = s.bool();
    let mut d = Ifd::default();
    d.set(tag::WIDTH, Val::Long(vec![s.us(1, w) as u32]));
    d.set(tag::LENGTH, Val::Long(vec![s.us(1, h) as u32]));
    d.set(tag::BITS, Val::Short(vec![1; spp]));
    d.set(tag::COMPRESSION, Val::Short(vec![codec.code()]));
    d.set(tag::PHOTOMETRIC, Val::Short(vec![*s.pick(&[0u16, 1, 4])]));
    d.set(tag::SPP, Val::Short(vec![spp as u16]));
    if planar || s.bool() {
        d.set(tag::PLANAR, Val::Short(vec![if planar { 2 } else { 1 }]));
    }
    d.set(tag::TILE_WIDTH, Val::Long(vec![w as u32]));
    d.set(tag::TILE_LENGTH, Val::Long(vec![h as u32]));
    if s.bool() {
        d.set(tag::SAMPLE_FORMAT, Val::Short(vec![1; spp]));
    }
    let parts: Vec<Bytes> = raw.iter().map(|r| Bytes::from(compress(codec, 5, r))).collect();
    let all = raw.concat();
    let n = w * h * spp;
    cx.note(|| format!("{w}x{h}, {spp} bands, planar {planar}, codec {}, short {short}", codec.name()));
    cx.label(if short { "too short" } else if planar { "planar" } else { "chunky" });
    let r = one_tile(d, &parts).decode(endian(big))?;
    if short {
        cx.nontrivial();
        return ensure(r.is_err(), || {
            format!("{} bytes decoded to {n} one-bit samples", all.len())
        });
    }
    let a = ok("decoding a mask", r)?;
    let want: Vec<bool> = (0..n).map(|i| all[i / 8] & (0x80 >> (i % 8)) != 0).collect();
    if want.iter().any(|b| *b) && want.iter().any(|b| !*b) {
        cx.nontrivial();
    }
    let shape = if planar { [spp, h, w] } else { [h, w, spp] };
    ensure(a.shape() == shape, || format!("shape {:?}, expected {shape:?}", a.shape()))?;
    ensure(a.data_type() == Some(DataType::Bool), || format!("data type {:?}", a.data_type()))?;
    match a.data() {
        TypedArray::Bool(v) => ensure(v == &want, || {
            let k = v.iter().zip(&want).position(|(a, b)| a != b);
            format!("{} elements (expected {n}), first wrong element {k:?}", v.len())
        }),
        o => Err(format!("array of {}", typed_name(o))),
    }?;
    let b: &[u8] = a.data().as_ref();
    ensure(b.len() == n && b.iter().zip(&want).all(|(a, b)| *a == *b as u8), || {
        "the byte view of the mask differs from its elements".into()
    })
}

/// Rows that are not whole bytes: how they are packed is not judged, but fewer bits than samples
/// can never be enough.
fn c10_odd(s: &mut Src, cx: &mut Cx, w: usize, h: usize, spp: usize) -> R {
    let n = w * h * spp;
    let need = n.div_ceil(8);
    let len = if s.bool() { need - 1 } else { s.us(0, need - 1) };
    let sp = Spec { w, h, spp, dt: Dt::U8, planar: false, codec: Codec::None, predictor: 1, big_endian: s.bool(), cfg: 0 };
    let mut d = spec_ifd(&sp);
    d.set(tag::BITS, Val::Short(vec![1; spp]));
    let raw = bulk(s.seed(), len);
    cx.note(|| format!("{w}x{h}, {spp} bands, {len} bytes for {n} bits"));
    cx.label("too short, partial byte");
    cx.nontrivial();
    let r = one_tile(d, &[Bytes::from(raw)]).decode(endian(sp.big_endian))?;
    ensure(r.is_err(), || format!("{len} bytes decoded to {n} one-bit samples"))
}

// ---------------------------------------------------------------- C11

pub const C11: Check = Check {
    id: "C11",
    f: c11,
    quick: 24_000_000,
    thorough: 240_000_000,
    level: "exploration",
    rule: "non-trivial if the buffer is not empty and either its length is not a whole number of elements or it has at least two elements",
    assumptions: &["boolean arrays are built through tile decoding (TypedArray::try_new documents that it does not take them)"],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

fn c11(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 3) {
        return c11_nd(s, cx);
    }
    let dt = if s.chance(1, 12) { None } else { Some(*s.pick(&DTS)) };
    let len = match s.upto(3) {
        0 if s.chance(1, 500) => s.us(60_000, 1_200_000) & !7 | s.us(0, 7) * s.us(0, 1),
        0 => s.us(0, 9),
        1 => 8 * s.us(0, 40),
        2 => s.us(0, 300),
        _ => {
            let k = s.us(0, 60);
            k * dt.map(|d| d.size()).unwrap_or(1)
        }
    };
    let data = bulk(s.seed(), len);
    let mut v = Vec::with_capacity(len + s.us(0, 17));
    v.extend_from_slice(&data);
    if s.chance(1, 3) {
        v.shrink_to_fit();
    }
    let size = dt.map(|d| d.size()).unwrap_or(1);
    cx.note(|| format!("{len} bytes (capacity {}) as {dt:?}", v.capacity()));
    cx.label(format!("{dt:?}"));
    if len > 0 && (len % size != 0 || len >= 2 * size) {
        cx.nontrivial();
    }
    if let Some(d) = dt {
        let n = d.api().size();
        ensure(n == size, || format!("{:?}.size() is {n}", d.api()))?;
    }
    ensure(DataType::Bool.size() == 1, || "Bool.size()".into())?;
    let r = sut("TypedArray::try_new", || TypedArray::try_new(v, dt.map(|d| d.api())))?;
    if len % size != 0 {
        return ensure(r.is_err(), || format!("{len} bytes were accepted as {dt:?}"));
    }
    let a = ok("TypedArray::try_new", r)?;
    let name = dt.map(|d| format!("{:?}", d.api())).unwrap_or("UInt8".into());
    ensure(typed_name(&a) == name, || format!("array of {} for {dt:?}", typed_name(&a)))?;
    ensure(a.len() == len / size, || format!("len() {} for {len} bytes of {dt:?}", a.len()))?;
    ensure(a.is_empty() == (len == 0), || format!("is_empty() {} for {len} bytes", a.is_empty()))?;
    let got = typed_bytes(&a);
    ensure(got == data, || format!("elements differ: {}", first_diff(&got, &data)))?;
    let view: &[u8] = a.as_ref();
    ensure(view == &data[..], || format!("byte view differs: {}", first_diff(view, &data)))
}

/// An array whose element type is unknown cannot become a typed n-dimensional array.
fn c11_untyped(s: &mut Src, cx: &mut Cx) -> R {
    let (w, h, spp) = (s.us(1, 7), s.us(1, 7), s.us(1, 4));
    let planar = s.bool();
    let sp = Spec { w, h, spp, dt: Dt::U8, planar, codec: Codec::None, predictor: 1, big_endian: s.bool(), cfg: 0 };
    let mut d = spec_ifd(&sp);
    let (f, b) = *s.pick(&[(4u16, 8u16), (4, 16), (3, 8), (3, 16), (1, 12), (1, 4), (2, 24), (1, 24)]);
    d.set(tag::BITS, Val::Short(vec![b; spp]));
    d.set(tag::SAMPLE_FORMAT, Val::Short(vec![f; spp]));
    let n = w * h * if planar { 1 } else { spp };
    let parts: Vec<Bytes> =
        (0..if planar { spp } else { 1 }).map(|_| Bytes::from(bulk(s.seed(), n))).collect();
    cx.note(|| format!("ndarray of {w}x{h}x{spp} planar {planar} of unsupported format {f}, {b} bits"));
    cx.label("ndarray, unsupported type");
    // decoding may refuse such samples altogether
    let Ok(a) = one_tile(d, &parts).decode(endian(sp.big_endian))? else { return Ok(()) };
    cx.nontrivial();
    ensure(a.data_type().is_none(), || format!("data type {:?} for format {f}, {b} bits", a.data_type()))?;
    let r = sut("NdArray::try_from", || NdArray::try_from(a))?;
    ensure(r.is_err(), || format!("an array of format {f}, {b} bits became a typed n-dimensional array"))
}

fn c11_nd(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 20) {
        return c11_untyped(s, cx);
    }
    let bool_ = s.chance(1, 8);
    let dt = *s.pick(&DTS);
    let planar = s.bool();
    let spp = s.us(1, 5);
    let w = if bool_ { 8 * s.us(1, 2) } else { s.us(1, 7) };
    let h = s.us(1, 7);
    let sp = Spec { w, h, spp, dt, planar, codec: Codec::None, predictor: 1, big_endian: s.bool(), cfg: 0 };
    let mut d = spec_ifd(&sp);
    let (px, parts): (Vec<u8>, Vec<Bytes>) = if bool_ {
        d.set(tag::BITS, Val::Short(vec![1; spp]));
        d.set(tag::SAMPLE_FORMAT, Val::Short(vec![1; spp]));
        let raw = bulk(s.seed(), w * h * spp / 8);
        let px = (0..w * h * spp).map(|i| raw[i / 8] >> (7 - i % 8) & 1).collect();
        let per = if planar { raw.len() / spp } else { raw.len() };
        (px, raw.chunks(per).map(Bytes::copy_from_slice).collect())
    } else {
        let px = samples(s.seed(), w * h * spp, dt, false);
        let Some(p) = encode_tile(&sp, &px) else { return Ok(()) };
        (px, p.into_iter().map(Bytes::from).collect())
    };
    cx.note(|| format!("ndarray of {} bool {bool_}", sp.show()));
    cx.label("ndarray");
    cx.nontrivial();
    let a = ok("decoding", one_tile(d, &parts).decode(endian(sp.big_endian))?)?;
    let (data, shape, ty) = a.clone().into_inner();
    ensure(shape == a.shape() && ty == a.data_type() && typed_bytes(&data) == typed_bytes(a.data()), || {
        "into_inner() differs from the accessors".into()
    })?;
    ensure(shape == sp.shape(), || format!("shape {shape:?}, expected {:?}", sp.shape()))?;
    ensure(typed_bytes(&data) == px, || "decoded elements differ".into())?;
    let nd = ok("converting to ndarray", sut("NdArray::try_from", || NdArray::try_from(a))?)?;
    let size = if bool_ { 1 } else { dt.size() };
    let name = if bool_ { "Bool".to_string() } else { format!("{:?}", dt.api()) };
    macro_rules! chk {
        ($n:literal, $a:expr, $f:expr) => {{
            ensure(name == $n, || format!("ndarray of {} for {name}", $n))?;
            ensure($a.shape() == &shape[..], || format!("ndarray shape {:?}, expected {shape:?}", $a.shape()))?;
            for i in 0..shape[0] {
                for j in 0..shape[1] {
                    for k in 0..shape[2] {
                        let at = ((i * shape[1] + j) * shape[2] + k) * size;
                        let got: Vec<u8> = ($f)($a[[i, j, k]]);
                        ensure(got == px[at..at + size], || {
                            format!("ndarray element [{i},{j},{k}] is {got:?}, expected {:?}", &px[at..at + size])
                        })?;
                    }
                }
            }
            Ok(())
        }};
    }
    match nd {
        NdArray::Bool(a) => chk!("Bool", a, |x: bool| vec![x as u8]),
        NdArray::Uint8(a) => chk!("UInt8", a, |x: u8| vec![x]),
        NdArray::Uint16(a) => chk!("UInt16", a, |x: u16| x.to_ne_bytes().to_vec()),
        NdArray::Uint32(a) => chk!("UInt32", a, |x: u32| x.to_ne_bytes().to_vec()),
        NdArray::Uint64(a) => chk!("UInt64", a, |x: u64| x.to_ne_bytes().to_vec()),
        NdArray::Int8(a) => chk!("Int8", a, |x: i8| vec![x as u8]),
        NdArray::Int16(a) => chk!("Int16", a, |x: i16| x.to_ne_bytes().to_vec()),
        NdArray::Int32(a) => chk!("Int32", a, |x: i32| x.to_ne_bytes().to_vec()),
        NdArray::Int64(a) => chk!("Int64", a, |x: i64| x.to_ne_bytes().to_vec()),
        NdArray::Float32(a) => chk!("Float32", a, |x: f32| x.to_bits().to_ne_bytes().to_vec()),
        NdArray::Float64(a) => chk!("Float64", a, |x: f64| x.to_bits().to_ne_bytes().to_vec()),
    }
}
