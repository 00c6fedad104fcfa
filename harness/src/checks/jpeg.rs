//! JPEG tiles: C23.
use super::*;
use crate::jpegenc::{Comp, Encoded, Jpeg};

pub const C23: Check = Check {
    id: "C23",
    f: c23,
    quick: 520_000,
    thorough: 16_000_000,
    level: "exploration",
    rule: "a baseline JPEG made by the harness's own encoder; non-trivial if tables are moved to the shared tag (all or some), or colour handling makes a visible difference, or the interpretation must be refused",
    assumptions: &[
        "baseline Huffman JPEGs, 8 bits; samples agree with a floating-point model within 5 levels (inverse DCT and colour conversion may round differently), and exactly between table placements",
        "subsampled chroma planes are constant per image (how chroma is interpolated is not specified)",
        "band-separate JPEG tiles hold one component each",
    ],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

const TOL: f64 = 5.0;

fn plane(s: &mut Src, w: usize, h: usize) -> Vec<u8> {
    match s.upto(3) {
        0 => vec![s.upto(255) as u8; w * h],
        1 => {
            // smooth ramp
            let (a, b, c) = (s.upto(255) as i64, s.int(0, 20) as i64 - 10, s.int(0, 20) as i64 - 10);
            (0..w * h).map(|i| (a + (i % w) as i64 * b + (i / w) as i64 * c).clamp(0, 255) as u8).collect()
        }
        _ => bulk(s.seed(), w * h),
    }
}

fn gen_jpeg(s: &mut Src, w: usize, h: usize, comps: usize, subsample: bool) -> Jpeg {
    let nq = s.us(1, 2);
    let qt: Vec<[u8; 64]> = (0..nq)
        .map(|_| {
            let mut q = [0u8; 64];
            let base = s.int(1, 20) as u8;
            let slope = s.upto(3) as u8;
            for (i, v) in q.iter_mut().enumerate() {
                *v = base + (i as u8 / 8) * slope;
            }
            q
        })
        .collect();
    let (hm, vm) = if subsample { *s.pick(&[(1usize, 1usize), (2, 1), (2, 2), (1, 2), (4, 1)]) } else { (1, 1) };
    let huff2 = s.bool();
    let list = (0..comps)
        .map(|c| {
            let (hs, vs) = if c == 0 { (hm, vm) } else { (1, 1) };
            let (pw, ph) = Jpeg::plane_dims(w, h, hs, vs, hm, vm);
            let p = if (hs, vs) != (hm, vm) { vec![s.upto(255) as u8; pw * ph] } else { plane(s, pw, ph) };
            Comp { hs, vs, q: if c > 0 { nq - 1 } else { 0 }, huff: if c > 0 && huff2 { 1 } else { 0 }, plane: p }
        })
        .collect();
    let ids = match s.upto(2) {
        0 => (1..=comps as u8).collect(),
        1 => (0..comps as u8).collect(),
        _ => b"RGBA"[..comps].to_vec(),
    };
    Jpeg { w, h, comps: list, qt, restart: if s.chance(1, 3) { s.int(1, 5) as u16 } else { 0 }, ids, app0: false }
}

/// Expected samples, chunky.
fn expect(e: &Encoded, ph: u16) -> Vec<f64> {
    let n = e.model[0].len();
    let c = e.model.len();
    let mut o = Vec::with_capacity(n * c);
    for i in 0..n {
        match (ph, c) {
            (6, 3) => {
                let (y, cb, cr) = (e.model[0][i], e.model[1][i] - 128.0, e.model[2][i] - 128.0);
                o.push((y + 1.402 * cr).clamp(0.0, 255.0));
                o.push((y - 0.344136 * cb - 0.714136 * cr).clamp(0.0, 255.0));
                o.push((y + 1.772 * cb).clamp(0.0, 255.0));
            }
            (5, 4) => o.extend((0..4).map(|k| 255.0 - e.model[k][i])),
            _ => o.extend((0..c).map(|k| e.model[k][i])),
        }
    }
    o
}

fn adobe(transform: u8) -> Vec<u8> {
    let mut v = vec![0xff, 0xee, 0, 14];
    v.extend(b"Adobe");
    v.extend([0, 100, 0, 0, 0, 0, transform]);
    v
}

fn c23(s: &mut Src, cx: &mut Cx) -> R {
    let (w, h) = match s.upto(2) {
        _ if s.chance(1, 150) => (s.us(1, 330), s.us(1, 330)),
        0 => (s.us(1, 9), s.us(1, 9)),
        1 => (*s.pick(&[8usize, 16, 32]), *s.pick(&[8usize, 16, 32])),
        _ => (s.us(1, 40), s.us(1, 40)),
    };
    // (photometric, components, planar bands)
    let (ph, comps, bands): (u16, usize, usize) = match s.weighted(&[3, 4, 4, 3, 2, 2]) {
        0 => (*s.pick(&[1u16, 0, 4]), *s.pick(&[1usize, 1, 3, 4]), 0),
        1 => (2, 3, 0),
        2 => (6, 3, 0),
        3 => (5, 4, 0),
        4 => (*s.pick(&[2u16, 1]), 1, s.us(1, 4)),
        _ => (*s.pick(&[3u16, 8]), *s.pick(&[1usize, 3]), 0),
    };
    let planar = bands > 0;
    let nparts = bands.max(1);
    let spp = if planar { bands } else { comps };
    let refused = matches!(ph, 3 | 8);
    let first = gen_jpeg(s, w, h, comps, ph == 6);
    let marker = s.upto(5);
    let mut encs = vec![];
    for b in 0..nparts {
        let mut j = first.clone();
        if b > 0 {
            // same tables, other content
            for c in j.comps.iter_mut() {
                c.plane = plane(s, w, h);
            }
        }
        let mut e = j.encode();
        // The photometric interpretation decides, whatever marker segments say or fail to say.
        e.app0 = match marker {
            1 => Some({
                let mut k = j.clone();
                k.app0 = true;
                k.encode().app0.unwrap()
            }),
            2..=4 => Some(adobe(marker as u8 - 2)),
            _ => None,
        };
        encs.push(e);
    }
    let nt = encs[0].tables.len();
    let mask: Vec<bool> = (0..nt).map(|_| s.bool()).collect();
    let sp = Spec { w, h, spp, dt: Dt::U8, planar, codec: Codec::None, predictor: 1, big_endian: false, cfg: 0 };
    let big = s.bool();
    cx.label(match ph {
        0 | 1 | 4 => "grayscale",
        2 => "RGB",
        6 => "YCbCr",
        5 => "CMYK",
        _ => "refused interpretation",
    });
    if planar {
        cx.label("band-separate");
    }
    cx.note(|| {
        format!(
            "{w}x{h}, photometric {ph}, {comps} components {:?}, {bands} separate bands, restart {}, tables in the tag {mask:?}, marker {marker}",
            first.comps.iter().map(|c| (c.hs, c.vs)).collect::<Vec<_>>(), first.restart
        )
    });
    let mut ifd = spec_ifd(&sp);
    ifd.set(tag::COMPRESSION, Val::Short(vec![7]));
    ifd.set(tag::PHOTOMETRIC, Val::Short(vec![ph]));
    // placements: all in the tile without a tag; all in the tile with an empty tag; all in the tag;
    // some in each; all in the tile with other tables of the same number in the tag
    let none = vec![false; nt];
    let all = vec![true; nt];
    let mut variants: Vec<(&str, Option<Vec<u8>>, Vec<Vec<u8>>)> = vec![];
    let split = |m: &[bool]| -> (Vec<u8>, Vec<Vec<u8>>) {
        (encs[0].split(m).0, encs.iter().map(|e| e.split(m).1).collect())
    };
    let (_, tiles) = split(&none);
    variants.push(("all tables in the tile", None, tiles.clone()));
    variants.push(("all tables in the tile, empty shared tables", Some(vec![0xff, 0xd8, 0xff, 0xd9]), tiles.clone()));
    let (t, p) = split(&all);
    variants.push(("all tables shared", Some(t), p));
    let (t, p) = split(&mask);
    variants.push(("some tables shared", Some(t), p));
    let mut other = vec![0xff, 0xd8];
    for t in encs[0].tables.iter().filter(|t| t[1] == 0xdb) {
        let mut t = t.clone();
        for v in t[5..].iter_mut() {
            *v = v.wrapping_mul(3).max(1);
        }
        other.extend(t);
    }
    other.extend([0xff, 0xd9]);
    variants.push(("other quantisation tables shared, the tile's own in the tile", Some(other), tiles));
    // shared tables after others they supersede, between comments
    let (t, p) = split(&all);
    let mut long = vec![0xff, 0xd8];
    for t in encs[0].tables.iter().filter(|t| t[1] == 0xdb) {
        let mut t = t.clone();
        for v in t[5..].iter_mut() {
            *v = v.wrapping_mul(5).max(1);
        }
        long.extend(t);
    }
    for _ in 0..s.us(0, 3) {
        let n = if s.chance(1, 100) { s.us(0, 20_000) } else { s.us(0, 400) };
        long.extend([0xff, 0xfe, ((n + 2) >> 8) as u8, (n + 2) as u8]);
        long.extend(bulk(s.seed(), n));
    }
    long.extend(&t[2..]);
    variants.push(("all tables shared, after comments and superseded ones", Some(long), p));
    let want: Vec<f64> = encs.iter().flat_map(|e| expect(e, ph)).collect();
    if !refused {
        // does getting the colours wrong show?
        let plain: Vec<f64> = encs.iter().flat_map(|e| expect(e, 1)).collect();
        let shows = match ph {
            2 => {
                let e6 = if comps == 3 { expect(&encs[0], 6) } else { want.clone() };
                e6.iter().zip(&want).any(|(a, b)| (a - b).abs() > 20.0)
            }
            _ => plain.iter().zip(&want).any(|(a, b)| (a - b).abs() > 20.0),
        };
        if shows {
            cx.label("colour handling visible");
        }
    }
    cx.nontrivial();
    let mut reference: Option<Vec<u8>> = None;
    for (name, tables, parts) in variants {
        let mut d = ifd.clone();
        if let Some(t) = tables {
            let v = if big { Val::Byte(t) } else { Val::Undef(t) };
            d.set(tag::JPEG_TABLES, v);
        }
        let parts: Vec<Bytes> = parts.into_iter().map(Bytes::from).collect();
        let one = one_tile(d, &parts);
        let r = one.decode(endian(big))?;
        cx.extra += 1;
        if refused {
            ensure(r.is_err(), || format!("{name}: photometric interpretation {ph} was accepted"))?;
            continue;
        }
        let a = r.map_err(|e| format!("{name}: decoding a valid JPEG tile failed: {e}"))?;
        ensure(a.shape() == sp.shape(), || format!("{name}: shape {:?}, expected {:?}", a.shape(), sp.shape()))?;
        let got = typed_bytes(a.data());
        ensure(got.len() == want.len(), || format!("{name}: {} samples instead of {}", got.len(), want.len()))?;
        for (i, (g, x)) in got.iter().zip(&want).enumerate() {
            if (*g as f64 - x).abs() > TOL {
                return Err(format!("{name}: sample {i} is {g}, the JPEG encodes {x:.1}"));
            }
        }
        match &reference {
            None => reference = Some(got),
            Some(r) => ensure(*r == got, || format!("{name}: not the same samples as with the tables in the tile: {}", first_diff(&got, r)))?,
        }
    }
    Ok(())
}
