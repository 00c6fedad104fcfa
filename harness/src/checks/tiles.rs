//! Tile addressing, batches, decoder dispatch and I/O cost: C05, C06, C20, C22.
use std::ops::Range;
use std::sync::{Arc, Mutex};

use async_tiff::decoder::{Decoder, DecoderRegistry};
use async_tiff::error::{AsyncTiffError, AsyncTiffResult, TiffError, TiffUnsupportedError};
use async_tiff::reader::AsyncFileReader;
use async_tiff::tags::{Compression, PhotometricInterpretation};
use async_tiff::{ImageFileDirectory, TIFF, TileByteRange, TilesByteRanges};
use bytes::Bytes;

use super::*;
use crate::io::*;

fn flat(r: Option<TileByteRange>) -> Option<(bool, Vec<Range<u64>>)> {
    r.map(|r| match r {
        TileByteRange::Chunky(r) => (false, vec![r]),
        TileByteRange::Planar(v) => (true, v),
    })
}

// ---------------------------------------------------------------- C05

pub const C05: Check = Check {
    id: "C05",
    f: c05,
    quick: 18_000_000,
    thorough: 240_000_000,
    level: "exploration",
    rule: "non-trivial if at least one probe is inside the grid with table entries and at least one is refused",
    assumptions: &[],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

fn c05(s: &mut Src, cx: &mut Cx) -> R {
    let mut i = Ifd::default();
    let small = s.chance(1, 2);
    let many = s.chance(1, 4000);
    let wide = !many && s.chance(1, 1000);
    let (iw, ih, tw, th) = if many {
        // more tiles than 16 bits can count
        let tw = s.int(1, 4);
        let th = s.int(1, 4);
        (tw * s.int(100, 700), th * s.int(100, 300), tw, th)
    } else if wide {
        let (tw, th) = (s.int(1, 9), s.int(1, 9));
        (s.int(1, 2 * tw), s.int(1, 2 * th), tw, th)
    } else if small {
        let tw = s.int(1, 20);
        let th = s.int(1, 20);
        (s.int(1, tw * 6), s.int(1, th * 6), tw, th)
    } else if s.chance(1, 20) {
        // no pixels: an empty grid
        let mut d = [s.upto(40), s.upto(40)];
        d[s.us(0, 1)] = 0;
        (d[0], d[1], s.int(1, 20), s.int(1, 20))
    } else {
        (s.ubits(32).max(1), s.ubits(32).max(1), s.ubits(32).max(1), s.ubits(32).max(1))
    };
    let planar = wide || s.bool();
    let spp = if wide {
        // every band has a tile of its own
        if s.chance(1, 10) { s.int(300, 65535) } else { s.int(6, 300) }
    } else if planar {
        s.int(1, 5)
    } else {
        s.int(1, 3)
    };
    let nx = (iw as u128).div_ceil(tw as u128) as u64;
    let ny = (ih as u128).div_ceil(th as u128) as u64;
    let bands = if planar { spp } else { 1 };
    let full = (nx as u128 * ny as u128 * bands as u128).min(if many { 220_000 } else if wide { u128::MAX } else { 200 }) as usize;
    let cut_table = |s: &mut Src| match if many || wide && s.chance(3, 4) { 3 } else { s.upto(3) } {
        0 => s.us(0, full),
        1 => full + s.us(0, 5),
        _ => full,
    };
    let no = cut_table(s);
    let nc = if s.chance(3, 4) { no } else { cut_table(s) };
    let far = !many && !wide && s.chance(1, 4);
    let offs: Vec<u64> = (0..no)
        .map(|k| if many || wide { 1000 + 100 * k as u64 } else if far && s.chance(1, 3) { s.ubits(64) } else { 1000 + 100 * k as u64 + s.upto(50) })
        .collect();
    let counts: Vec<u64> =
        (0..nc).map(|k| if many || wide { k as u64 % 90 } else if far && s.chance(1, 3) { s.ubits(64) } else { s.upto(120) }).collect();
    i.set(tag::WIDTH, Val::Long(vec![iw as u32]));
    i.set(tag::LENGTH, Val::Long(vec![ih as u32]));
    i.set(tag::BITS, Val::Short(vec![8; spp as usize]));
    i.set(tag::PHOTOMETRIC, Val::Short(vec![1]));
    i.set(tag::SPP, Val::Short(vec![spp as u16]));
    if planar {
        i.set(tag::PLANAR, Val::Short(vec![2]));
    } else if s.bool() {
        i.set(tag::PLANAR, Val::Short(vec![1]));
    }
    i.set(tag::TILE_WIDTH, Val::Long(vec![tw as u32]));
    i.set(tag::TILE_LENGTH, Val::Long(vec![th as u32]));
    i.set(tag::TILE_OFFSETS, Val::Long8(offs.clone()));
    i.set(tag::TILE_BYTE_COUNTS, Val::Long8(counts.clone()));
    // not tiled, or not completely
    let missing = if s.chance(1, 12) {
        let t = *s.pick(&[tag::TILE_WIDTH, tag::TILE_LENGTH, tag::TILE_OFFSETS, tag::TILE_BYTE_COUNTS]);
        i.remove(t);
        Some(t)
    } else {
        None
    };
    let e = endian(s.bool());
    let tags = tag_map(&i, &[]);
    let ifd = ok("from_tags", sut("from_tags", || ImageFileDirectory::from_tags(tags, e))?)?;
    cx.note(|| {
        format!("{iw}x{ih} image, {tw}x{th} tiles, {bands} bands (planar {planar}), {no} offsets, {nc} counts, missing {missing:?}")
    });
    let tc = sut("tile_count", || ifd.tile_count())?;
    let want_tc = match missing {
        Some(tag::TILE_WIDTH | tag::TILE_LENGTH) => None,
        _ => Some((nx as usize, ny as usize)),
    };
    ensure(tc == want_tc, || format!("tile_count() is {tc:?}, expected {want_tc:?}"))?;

    let file = Arc::new(SparseFile { segs: Default::default(), len: u64::MAX, fill: 7 });
    let mem = Mem(Shared::new(file.clone()).arc());
    // what must happen for (x, y)
    let model = |x: usize, y: usize| -> Option<Vec<Range<u64>>> {
        if missing.is_some() || x as u64 >= nx || y as u64 >= ny {
            return None;
        }
        (0..bands)
            .map(|b| {
                let k = b as u128 * (nx as u128 * ny as u128) + y as u128 * nx as u128 + x as u128;
                let k = usize::try_from(k).ok()?;
                let o = *offs.get(k)?;
                Some(o..o.checked_add(*counts.get(k)?)?)
            })
            .collect()
    };
    let mut hit = false;
    let mut refused = false;
    let mut probes = vec![];
    for _ in 0..s.us(1, 6) {
        let coord = |s: &mut Src, n: u64| -> usize {
            (match s.upto(6) {
                0 => s.upto(n.saturating_sub(1).min(8)),
                1 => n.saturating_sub(1),
                2 => n,
                3 => n.saturating_add(s.upto(3)),
                4 => s.upto(n.saturating_sub(1)),
                5 => s.ubits(64),
                _ => 0,
            }) as usize
        };
        let x = coord(s, nx);
        let y = coord(s, ny);
        let want = model(x, y);
        let got = flat(sut("tile_byte_range", || ifd.tile_byte_range(x, y))?);
        match &want {
            Some(_) => hit = true,
            None => refused = true,
        }
        let want_full = want.clone().map(|w| (planar, w));
        ensure(got == want_full, || {
            format!("tile_byte_range({x}, {y}) of a {nx}x{ny} grid is {got:?}, expected {want_full:?}")
        })?;
        let small_enough = want.as_ref().map(|w| w.iter().all(|r| r.end - r.start <= 200)).unwrap_or(true);
        if small_enough {
            let r = block_on("fetch_tile", ifd.fetch_tile(x, y, &mem))?;
            let log = mem.0.take_log();
            match (r, &want) {
                (Ok(t), Some(w)) => {
                    ensure(t.x() == x && t.y() == y, || format!("tile says ({}, {})", t.x(), t.y()))?;
                    let want_bytes: Vec<Bytes> = w.iter().map(|r| file.read(r.clone())).collect();
                    ensure(parts_of(t.compressed_bytes()) == want_bytes, || {
                        format!("fetch_tile({x}, {y}) returned other bytes than {w:?}")
                    })?;
                }
                (Err(_), None) => {
                    ensure(log.is_empty(), || format!("refused tile ({x}, {y}) caused requests {log:?}"))?;
                }
                (Ok(_), None) => return Err(format!("fetch_tile({x}, {y}) succeeded, expected refusal")),
                (Err(e), Some(w)) => return Err(format!("fetch_tile({x}, {y}) failed ({e}), expected {w:?}")),
            }
        }
        probes.push((x, y));
    }
    // the batch form
    let want: Option<Vec<Vec<Range<u64>>>> = probes.iter().map(|(x, y)| model(*x, *y)).collect();
    let got = sut("tiles_byte_ranges", || ifd.tiles_byte_ranges(&probes))?.map(|r| match r {
        TilesByteRanges::Chunky(v) => (false, v.into_iter().map(|r| vec![r]).collect::<Vec<_>>()),
        TilesByteRanges::Planar(v) => (true, v),
    });
    let want = want.map(|w| (planar, w));
    ensure(got == want, || format!("tiles_byte_ranges({probes:?}) is {got:?}, expected {want:?}"))?;
    if hit && refused {
        cx.nontrivial();
    }
    cx.label(if many {
        "many tiles"
    } else if missing.is_some() {
        "not tiled"
    } else if small {
        "small grid"
    } else {
        "large dimensions"
    });
    Ok(())
}

// ---------------------------------------------------------------- C06

pub const C06: Check = Check {
    id: "C06",
    f: c06,
    quick: 300_000,
    thorough: 6_000_000,
    level: "exploration",
    rule: "non-trivial if the list has at least two entries that are not the same tile",
    assumptions: &[],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

/// Arbitrary offset and byte count tables: tiles sharing, nesting and overlapping their bytes, in any order and far apart.
fn c06_tables(s: &mut Src, cx: &mut Cx) -> R {
    let (nx, ny) = (s.us(1, 6), s.us(1, 5));
    let planar = s.chance(1, 3);
    let spp = if planar { s.us(1, 4) } else { s.us(1, 3) };
    let n = nx * ny * if planar { spp } else { 1 };
    let base = if s.chance(1, 3) { s.ubits(63) } else { 64 };
    let pool: Vec<u64> = (0..s.us(1, 6)).map(|_| base + if s.bool() { s.upto(300) } else { s.upto(100_000) }).collect();
    let mut offs: Vec<u64> = vec![];
    let mut counts: Vec<u64> = vec![];
    for _ in 0..n {
        let o = *s.pick(&pool);
        let c = match s.upto(5) {
            0 => 0,
            1 => s.upto(5000),
            _ => s.upto(40),
        };
        // same start, same end, directly behind another, or its own
        let (o, c) = match s.upto(5) {
            0 if !offs.is_empty() => {
                let j = s.us(0, offs.len() - 1);
                (offs[j] + counts[j], c)
            }
            1 if !offs.is_empty() => {
                let j = s.us(0, offs.len() - 1);
                let cut = s.upto(counts[j]);
                (offs[j] + cut, counts[j] - cut)
            }
            2 => (base + s.upto(200_000), c),
            _ => (o, c),
        };
        offs.push(o);
        counts.push(c);
    }
    let (tw, th) = (16, 16);
    let mut i = Ifd::default();
    i.set(tag::WIDTH, Val::Long(vec![(nx * tw) as u32]));
    i.set(tag::LENGTH, Val::Long(vec![(ny * th) as u32]));
    i.set(tag::BITS, Val::Short(vec![8; spp]));
    i.set(tag::PHOTOMETRIC, Val::Short(vec![1]));
    i.set(tag::SPP, Val::Short(vec![spp as u16]));
    i.set(tag::PLANAR, Val::Short(vec![if planar { 2 } else { 1 }]));
    i.set(tag::TILE_WIDTH, Val::Long(vec![tw as u32]));
    i.set(tag::TILE_LENGTH, Val::Long(vec![th as u32]));
    i.set(tag::TILE_OFFSETS, Val::Long8(offs.clone()));
    i.set(tag::TILE_BYTE_COUNTS, Val::Long8(counts.clone()));
    let tags = tag_map(&i, &[]);
    let e = endian(s.bool());
    let ifd = ok("from_tags", sut("from_tags", || ImageFileDirectory::from_tags(tags, e))?)?;
    let file = Arc::new(SparseFile { segs: Default::default(), len: u64::MAX, fill: 1 + s.upto(254) as u8 });
    let mem = Mem(Shared::new(file.clone()).arc());
    let batch = MemBatch(mem.0.clone());
    let list: Vec<(usize, usize)> = (0..s.us(0, 20)).map(|_| (s.us(0, nx - 1), s.us(0, ny - 1))).collect();
    cx.note(|| format!("{nx}x{ny} tiles, {spp} bands (planar {planar}) at {offs:?} + {counts:?}; tiles {list:?}"));
    if list.iter().any(|p| *p != list[0]) {
        cx.nontrivial();
    }
    cx.label("arbitrary tables");
    let readers: [(&str, &dyn AsyncFileReader); 2] = [("default multi-range", &mem), ("own multi-range", &batch)];
    for (name, r) in readers {
        let tiles = ok("fetch_tiles", block_on("fetch_tiles", ifd.fetch_tiles(&list, r))?)?;
        ensure(tiles.len() == list.len(), || format!("{name}: {} tiles returned for {} asked", tiles.len(), list.len()))?;
        for (k, (t, (x, y))) in tiles.into_iter().zip(&list).enumerate() {
            ensure((t.x(), t.y()) == (*x, *y), || format!("{name}: entry {k} asked for ({x},{y}), got ({},{})", t.x(), t.y()))?;
            let want: Vec<Bytes> = (0..if planar { spp } else { 1 })
                .map(|b| b * nx * ny + y * nx + x)
                .map(|j| file.read(offs[j]..offs[j] + counts[j]))
                .collect();
            let got = parts_of(t.compressed_bytes());
            ensure(got == want, || format!("{name}: tile ({x},{y}) at entry {k} of {list:?} has other bytes than stored"))?;
            let one = ok("fetch_tile", block_on("fetch_tile", ifd.fetch_tile(*x, *y, r))?)?;
            ensure(parts_of(one.compressed_bytes()) == want, || format!("{name}: tile ({x},{y}) alone has other bytes than stored"))?;
        }
    }
    Ok(())
}

fn c06(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 4) {
        return c06_tables(s, cx);
    }
    let byte_only = s.chance(9, 10);
    let mut spec = Spec::gen(s, &SpecOpts { max_side: 12, max_spp: 5, byte_only, max_bytes: 1500 });
    if spec.codec == Codec::Lzma && s.chance(19, 20) {
        spec.codec = Codec::None;
    }
    // a long list of tiles, of a larger grid
    let long = s.chance(1, 800);
    if long {
        spec.w = spec.w.min(4);
        spec.h = spec.h.min(4);
    }
    let side = if long { 24 } else { 4 };
    let nx = s.us(1, side);
    let ny = s.us(1, side);
    let Some(img) = Img::with_spec(s, spec, nx, ny) else { return Ok(()) };
    let fl = Flavour { bigtiff: s.bool(), big_endian: spec.big_endian };
    let mut m = Model::default();
    let d = img.ifd(&mut m.blobs, fl.bigtiff);
    m.ifds.push(d);
    let lay = Layout::gen(s, &m, fl, false);
    let w = write(&m, fl, &lay);
    let mem = Mem(Shared::new(w.file.clone()).arc());
    let batch = MemBatch(mem.0.clone());
    let opened = ok("opening", open_sync(&mem)?)?;
    let ifd = &opened.ifds[0];
    let n = if long {
        s.us(200, 1500)
    } else if s.chance(1, 60) {
        s.us(13, 150)
    } else { s.us(0, 12) };
    let mut list: Vec<(usize, usize)> = vec![];
    for _ in 0..n {
        let p = if !list.is_empty() && s.chance(1, 4) {
            *s.pick(&list)
        } else {
            (s.us(0, nx - 1), s.us(0, ny - 1))
        };
        list.push(p);
    }
    cx.note(|| format!("{}; tiles {list:?}", img.show()));
    if list.iter().any(|p| *p != list[0]) {
        cx.nontrivial();
    }
    cx.label(if spec.planar { "planar" } else { "chunky" });
    let readers: [(&str, &dyn AsyncFileReader); 2] = [("default multi-range", &mem), ("own multi-range", &batch)];
    for (name, r) in readers {
        let tiles = ok("fetch_tiles", block_on("fetch_tiles", ifd.fetch_tiles(&list, r))?)?;
        ensure(tiles.len() == list.len(), || {
            format!("{name}: {} tiles returned for {} asked", tiles.len(), list.len())
        })?;
        for (k, (t, (x, y))) in tiles.into_iter().zip(&list).enumerate() {
            let one = ok("fetch_tile", block_on("fetch_tile", ifd.fetch_tile(*x, *y, r))?)?;
            ensure((t.x(), t.y()) == (*x, *y) && (one.x(), one.y()) == (*x, *y), || {
                format!("{name}: entry {k} asked for ({x},{y}), got ({},{}), alone ({},{})", t.x(), t.y(), one.x(), one.y())
            })?;
            let a = parts_of(t.compressed_bytes());
            let b = parts_of(one.compressed_bytes());
            let want = &img.parts[y * nx + x];
            ensure(&b == want, || format!("{name}: tile ({x},{y}) alone has other bytes than stored"))?;
            ensure(&a == want, || format!("{name}: tile ({x},{y}) at entry {k} of {list:?} has other bytes than stored"))?;
            if k < 3 {
                let arr = ok("decoding", decode(t)?)?;
                check_array(&arr, &spec, &img.px[y * nx + x])
                    .map_err(|e| format!("{name}: tile ({x},{y}) from the batch: {e}"))?;
                let arr = ok("decoding", decode(one)?)?;
                check_array(&arr, &spec, &img.px[y * nx + x])
                    .map_err(|e| format!("{name}: tile ({x},{y}) alone: {e}"))?;
            }
        }
    }
    // one bad index spoils the call
    let mut bad = list.clone();
    let at = s.us(0, bad.len());
    let p = match s.upto(3) {
        0 => (nx, s.us(0, ny - 1)),
        1 => (s.us(0, nx - 1), ny),
        2 => (nx + s.us(0, 5), ny + s.us(0, 5)),
        _ => (usize::MAX, 0),
    };
    bad.insert(at, p);
    let r = block_on("fetch_tiles", ifd.fetch_tiles(&bad, &batch))?;
    ensure(r.is_err(), || format!("fetch_tiles({bad:?}) succeeded although {p:?} is outside the {nx}x{ny} grid"))?;
    // one failed read spoils the call
    if !list.is_empty() {
        let bands = if spec.planar { spec.spp } else { 1 };
        let total = (list.len() * bands) as u64;
        let k = s.upto(total - 1);
        for r in [&mem as &dyn AsyncFileReader, &batch] {
            mem.0.set_faults(move |i| if i == k { Fault::Error } else { Fault::None });
            let got = block_on("fetch_tiles", ifd.fetch_tiles(&list, r))?;
            // (ranges asked for twice need not be read twice)
            if mem.0.served() > k {
                ensure(got.is_err(), || format!("fetch_tiles({list:?}) succeeded although read {k} failed"))?;
            }
            mem.0.clear_faults();
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C20

pub const C20: Check = Check {
    id: "C20",
    f: c20,
    quick: 15_000_000,
    thorough: 200_000_000,
    level: "exploration",
    rule: "non-trivial if a decoder was called and at least one of JPEG tables, LERC parameters, planar layout or an unassigned code is involved, or the code was refused",
    assumptions: &[
        "a user decoder for the JPEG 2000 code is only tried with 8-bit or little-endian images (its output order for multi-byte big-endian files is a matter of convention)",
    ],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

#[derive(Debug, Clone, PartialEq)]
struct Call {
    buf: Bytes,
    photometric: PhotometricInterpretation,
    tables: Option<Vec<u8>>,
    spp: u16,
    bits: u16,
    lerc: Option<Vec<u32>>,
}

#[derive(Debug, Clone)]
struct Recorder {
    calls: Arc<Mutex<Vec<Call>>>,
    /// per call: output or failure
    out: Arc<Vec<Option<Vec<u8>>>>,
}

impl Decoder for Recorder {
    fn decode_tile(
        &self,
        buffer: Bytes,
        photometric: PhotometricInterpretation,
        jpeg_tables: Option<&[u8]>,
        samples_per_pixel: u16,
        bits_per_sample: u16,
        lerc_parameters: Option<&[u32]>,
    ) -> AsyncTiffResult<Vec<u8>> {
        let mut c = self.calls.lock().unwrap();
        let k = c.len();
        c.push(Call {
            buf: buffer,
            photometric,
            tables: jpeg_tables.map(|t| t.to_vec()),
            spp: samples_per_pixel,
            bits: bits_per_sample,
            lerc: lerc_parameters.map(|t| t.to_vec()),
        });
        match self.out.get(k) {
            Some(Some(v)) => Ok(v.clone()),
            _ => Err(AsyncTiffError::General("decoder says no 7391".into())),
        }
    }
}

fn c20(s: &mut Src, cx: &mut Cx) -> R {
    let code = match s.upto(3) {
        0 => *s.pick(&[1u16, 5, 7, 8, 32946, 34712, 34887, 34925, 50000, 50001]),
        1 => *s.pick(&[2u16, 3, 4, 6, 32773, 0, 9, 10, 34661, 65535, 50002]),
        _ => s.ubits(16) as u16,
    };
    let mut dt = *s.pick(&DTS);
    let planar = s.bool();
    let spp = if s.chance(1, 300) { s.us(5, 400) } else { s.us(1, 4) };
    let large = s.chance(1, 300);
    let (w, h) = if large && spp < 5 { (s.us(100, 300), s.us(1, 200)) } else { (s.us(1, 6), s.us(1, 6)) };
    let big = s.bool();
    if code == 34712 && big && dt.size() > 1 {
        dt = Dt::U8;
    }
    let sp = Spec { w, h, spp, dt, planar, codec: Codec::None, predictor: 1, big_endian: big, cfg: 0 };
    let mut d = spec_ifd(&sp);
    d.set(tag::COMPRESSION, Val::Short(vec![code]));
    let ph = *s.pick(super::tags::PHOTOMETRIC);
    d.set(tag::PHOTOMETRIC, Val::Short(vec![ph.0]));
    d.remove(tag::PREDICTOR);
    if s.bool() {
        d.set(tag::PREDICTOR, Val::Short(vec![1]));
    }
    // sample depths the library has no array type for still reach the decoder as they are
    let odd_bits = if s.chance(1, 8) { Some(*s.pick(&[1u16, 2, 4, 7, 12, 14, 24, 40])) } else { None };
    if let Some(b) = odd_bits {
        d.set(tag::BITS, Val::Short(vec![b; spp]));
    }
    let tables = if s.bool() {
        let n = if large { s.us(2, 5000) } else { s.us(2, 20) };
        let t = bulk(s.seed(), n);
        d.set(tag::JPEG_TABLES, Val::Undef(t.clone()));
        Some(t)
    } else {
        None
    };
    let lerc = if s.bool() {
        let n = s.us(2, 5);
        let v: Vec<u32> = (0..n).map(|_| s.ubits(32) as u32).collect();
        d.set(tag::LERC_PARAMS, Val::Long(v.clone()));
        Some(v)
    } else {
        None
    };
    let bands = if planar { spp } else { 1 };
    let parts: Vec<Bytes> = (0..bands)
        .map(|_| {
            let n = if large { s.us(0, 200_000 / bands) } else { s.us(0, 12) };
            Bytes::from(bulk(s.seed(), n))
        })
        .collect();
    let px = bulk(s.seed(), sp.pixel_bytes());
    let per = px.len() / bands;
    let mut out: Vec<Option<Vec<u8>>> = px
        .chunks_exact(per)
        .map(|c| {
            let mut v = c.to_vec();
            if big && dt.size() > 1 {
                v.chunks_exact_mut(dt.size()).for_each(|c| c.reverse());
            }
            Some(v)
        })
        .collect();
    let fail_at = if s.chance(1, 8) { Some(s.us(0, bands - 1)) } else { None };
    if let Some(k) = fail_at {
        out[k] = None;
    }
    let rec = Recorder { calls: Default::default(), out: Arc::new(out) };
    let decoy = Recorder { calls: Default::default(), out: Arc::new(vec![]) };
    let key = Compression::from_u16_exhaustive(code);
    let mut reg = if s.bool() { DecoderRegistry::default() } else { DecoderRegistry::empty() };
    let register = s.chance(4, 5);
    // decoders for other codes must not be touched
    for _ in 0..s.us(0, 3) {
        let c = match s.upto(2) {
            0 => code ^ (1 << s.upto(15)),
            1 => *s.pick(&[1u16, 5, 7, 8, 32946, 50000, 34887, 34925]),
            _ => s.ubits(16) as u16,
        };
        if c != code {
            reg.as_mut().insert(Compression::from_u16_exhaustive(c), Box::new(decoy.clone()));
        }
    }
    if !format!("{key:?}").contains("Unknown") && s.chance(1, 10) {
        // the unnamed spelling of a code that has a name is another key
        reg.as_mut().insert(Compression::Unknown(code), Box::new(decoy.clone()));
    }
    if register {
        reg.as_mut().insert(key, Box::new(rec.clone()));
    } else {
        reg.as_mut().remove(&key);
    }
    cx.note(|| {
        format!(
            "code {code} registered {register}, {}, photometric {}, tables {:?}, lerc {lerc:?}, failing call {fail_at:?}",
            sp.show(), ph.1, tables.as_ref().map(|t| t.len())
        )
    });
    let one = one_tile(d, &parts);
    let tile = ok("fetching", one.fetch(endian(big))?)?;
    ensure(tile.compression_method().to_u16() == code, || {
        format!("tile reports compression {:?} for code {code}", tile.compression_method())
    })?;
    ensure(format!("{:?}", tile.photometric_interpretation()) == ph.1, || {
        format!("tile reports photometric {:?} for {}", tile.photometric_interpretation(), ph.1)
    })?;
    ensure(tile.jpeg_tables().map(|b| b.to_vec()) == tables, || "tile reports other JPEG tables".into())?;
    ensure(parts_of(tile.compressed_bytes()) == parts, || "tile holds other bytes than stored".into())?;
    // a tile can be kept and decoded again
    let again = s.chance(1, 4);
    let copy = tile.clone();
    let r = sut("decode", || tile.decode(&reg))?;
    let calls = std::mem::take(&mut *rec.calls.lock().unwrap());
    ensure(decoy.calls.lock().unwrap().is_empty(), || {
        format!("a decoder registered for another code was called for code {code}")
    })?;
    if !register {
        cx.nontrivial();
        cx.label("not registered");
        return match r {
            Err(AsyncTiffError::InternalTIFFError(TiffError::UnsupportedError(
                TiffUnsupportedError::UnsupportedCompression(c),
            ))) if c.to_u16() == code => Ok(()),
            Err(e) => Err(format!("code {code} has no decoder; error is: {e}")),
            Ok(_) => Err(format!("code {code} has no decoder, yet decoding succeeded")),
        };
    }
    let expect = |n: usize| -> Vec<Call> {
        (0..n)
            .map(|b| Call {
                buf: parts[b].clone(),
                photometric: PhotometricInterpretation::from_u16(ph.0).unwrap(),
                tables: tables.clone(),
                spp: if planar { 1 } else { spp as u16 },
                bits: odd_bits.unwrap_or(dt.bits()),
                lerc: lerc.clone(),
            })
            .collect()
    };
    if tables.is_some() || lerc.is_some() || planar || format!("{key:?}").contains("Unknown") {
        cx.nontrivial();
    }
    cx.label(if planar { "planar" } else { "chunky" });
    match (&fail_at, r) {
        (Some(k), Err(e)) => {
            ensure(e.to_string().contains("decoder says no 7391"), || format!("the decoder's error became: {e}"))?;
            // calls before the failing one must have been right
            let want = expect(k + 1);
            ensure(calls.len() >= want.len() && calls[..want.len()] == want[..], || {
                format!("decoder calls {calls:?}, expected {want:?}")
            })?;
        }
        (Some(_), Ok(_)) => return Err("the decoder failed, yet decoding succeeded".into()),
        (None, r) if odd_bits.is_some() => {
            // (what the array then holds is not judged here)
            cx.label(if r.is_ok() { "odd depth" } else { "odd depth, refused" });
            let want = expect(bands);
            ensure(calls == want, || format!("decoder calls {calls:?}, expected {want:?}"))?;
        }
        (None, Err(e)) => return Err(format!("the decoder succeeded, decoding failed: {e}")),
        (None, Ok(a)) => {
            let want = expect(bands);
            ensure(calls == want, || format!("decoder calls {calls:?}, expected {want:?}"))?;
            check_array(&a, &sp, &px)?;
            if again {
                let a = ok("decoding again", sut("decode", || copy.decode(&reg))?)?;
                let calls = rec.calls.lock().unwrap().clone();
                ensure(calls == want, || format!("second decode: calls {calls:?}, expected {want:?}"))?;
                check_array(&a, &sp, &px).map_err(|e| format!("second decode: {e}"))?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C22

pub const C22: Check = Check {
    id: "C22",
    f: c22,
    quick: 800_000,
    thorough: 16_000_000,
    level: "exploration",
    rule: "non-trivial if the file has image data of at least two tiles or strips and at least one out-of-line value",
    assumptions: &[],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

fn c22(s: &mut Src, cx: &mut Cx) -> R {
    let fl = Flavour::gen(s);
    let mut m = Model::default();
    let mut imgs: Vec<Option<Img>> = vec![];
    let mut n_blocks = 0;
    for _ in 0..s.us(1, 4) {
        if s.chance(3, 4) {
            let mut spec = Spec::gen(s, &SpecOpts { max_side: 8, max_spp: 4, byte_only: true, max_bytes: 300 });
            if !matches!(spec.codec, Codec::None | Codec::Lzw) {
                spec.codec = Codec::None;
            }
            spec.big_endian = fl.big_endian;
            let many = s.chance(1, 300);
            let (nx, ny) = if many { (s.us(8, 20), s.us(8, 20)) } else { (s.us(1, 4), s.us(1, 4)) };
            let Some(mut img) = Img::with_spec(s, spec, nx, ny) else { return Ok(()) };
            if s.chance(1, 10) {
                // a part without bytes
                let k = s.us(0, nx * ny - 1);
                let b = s.us(0, img.parts[k].len() - 1);
                img.parts[k][b] = Bytes::new();
            }
            let mut d = img.ifd(&mut m.blobs, fl.bigtiff);
            // absent (sparse) tiles have offset 0 and no bytes
            let mut keep = true;
            if s.chance(1, 6) {
                if let Some(e) = d.entries.iter_mut().find(|e| e.tag == tag::TILE_OFFSETS) {
                    if let Val::Offsets(_, v) = &mut e.val {
                        let k = s.us(0, v.len() - 1);
                        v[k] = None;
                        keep = false;
                    }
                }
            }
            if s.chance(1, 5) {
                // legacy strips beside the tiles
                let k = m.blobs.len();
                let len = s.us(1, 40);
                m.blobs.push(Bytes::from(bulk(s.seed(), len)));
                d.set(tag::STRIP_OFFSETS, Val::Offsets(if fl.bigtiff { 16 } else { 4 }, vec![Some(k)]));
                d.set(tag::STRIP_BYTE_COUNTS, Val::Long(vec![len as u32]));
            }
            n_blocks += img.nx * img.ny;
            m.ifds.push(d);
            imgs.push(if keep { Some(img) } else { None });
        } else {
            let mut d = minimal_ifd(10, 10);
            let n = s.us(1, 6);
            let mut offs = vec![];
            let mut counts = vec![];
            if s.chance(1, 200) {
                // thousands of strips, sharing their bytes
                offs = vec![Some(m.blobs.len()); s.us(1000, 9000)];
                counts = vec![3; offs.len()];
                m.blobs.push(Bytes::from_static(b"abc"));
            }
            for _ in 0..n {
                offs.push(if s.chance(1, 8) { None } else { Some(m.blobs.len()) });
                let len = s.us(1, 40);
                m.blobs.push(Bytes::from(bulk(s.seed(), len)));
                counts.push(len as u32);
            }
            d.set(tag::STRIP_OFFSETS, Val::Offsets(if fl.bigtiff { 16 } else { 4 }, offs));
            d.set(tag::STRIP_BYTE_COUNTS, Val::Long(counts));
            n_blocks += n;
            m.ifds.push(d);
            imgs.push(None);
        }
        let d = m.ifds.last_mut().unwrap();
        for _ in 0..s.us(0, 3) {
            let n = s.us(1, 60);
            let ty = *s.pick(&[2u16, 3, 12]);
            let t = match ty {
                2 => *s.pick(&[269u16, 270, 305, 42112, 42113]),
                3 => 320,
                _ => 33922,
            };
            d.set(t, Val::gen(s, ty, n));
        }
    }
    if s.chance(1, 100) {
        // a directory of many entries
        let k = s.us(0, m.ifds.len() - 1);
        let n = if s.chance(1, 8) { s.us(200, 1500) } else { s.us(20, 200) };
        for i in 0..n {
            let ty = if i % 7 == 0 { 12 } else { *s.pick(&[3u16, 2, 4]) };
            let cnt = s.us(1, 3);
            m.ifds[k].set(60_000 + i as u16, Val::gen(s, ty, cnt));
        }
        cx.label("many entries");
    }
    let far = s.chance(1, 3);
    let lay = Layout::gen(s, &m, fl, far);
    let w = write(&m, fl, &lay);
    // the metadata bytes, merged
    let mut meta = w.meta_ranges.clone();
    meta.sort_by_key(|r| r.start);
    let mut merged: Vec<Range<u64>> = vec![];
    for r in meta {
        match merged.last_mut() {
            Some(l) if l.end >= r.start => l.end = l.end.max(r.end),
            _ => merged.push(r),
        }
    }
    let sh = Shared::new(w.file.clone()).arc();
    let mem = MemBatch(sh.clone());
    let o = ok("opening", open_sync(&mem)?)?;
    cx.note(|| {
        format!("{} file of {} bytes, {} directories, metadata at {merged:?}", fl.name(), w.file.len, m.ifds.len())
    });
    if n_blocks >= 2 && w.meta_ranges.len() > 1 + m.ifds.len() {
        cx.nontrivial();
    }
    let flat_log = |l: Vec<Req>| -> Vec<Range<u64>> {
        l.into_iter()
            .flat_map(|r| match r {
                Req::One(r) => vec![r],
                Req::Many(v) => v,
            })
            .collect()
    };
    for r in flat_log(sh.take_log()) {
        if r.start >= r.end {
            continue;
        }
        ensure(merged.iter().any(|g| g.start <= r.start && r.end <= g.end), || {
            format!("reading metadata requested {r:?}, which is not inside the metadata {merged:?}")
        })?;
    }
    // header size
    let mut least: Option<u64> = None;
    for d in &m.ifds {
        for t in [tag::TILE_OFFSETS, tag::STRIP_OFFSETS] {
            if let Some(Val::Offsets(_, v)) = d.get(t) {
                for b in v.iter().flatten() {
                    let x = w.blob_offsets[*b];
                    least = Some(least.map(|l| l.min(x)).unwrap_or(x));
                }
            }
        }
    }
    if let Some(least) = least {
        let tiff = TIFF::new(o.ifds.clone(), o.endianness);
        let got = sut("header_byte_size", || tiff.header_byte_size())?;
        ensure(got == least, || format!("header_byte_size() is {got}, the first image data is at {least}"))?;
        ensure(
            tiff.ifds().iter().map(dump_full).collect::<Vec<_>>()
                == o.ifds.iter().map(dump_full).collect::<Vec<_>>()
                && tiff.endianness() == o.endianness,
            || "TIFF changed its directories or byte order".into(),
        )?;
    }
    // tiles, through the reader itself or as a boxed or shared trait object
    let wrapped: Box<dyn AsyncFileReader> = match s.upto(3) {
        0 => Box::new(mem.clone()),
        1 => Box::new(Box::new(mem.clone()) as Box<dyn AsyncFileReader>),
        2 => Box::new(Arc::new(mem.clone()) as Arc<dyn AsyncFileReader>),
        _ => Box::new(Arc::new(Box::new(mem.clone()) as Box<dyn AsyncFileReader>) as Arc<dyn AsyncFileReader>),
    };
    for (k, img) in imgs.iter().enumerate() {
        let Some(img) = img else { continue };
        let ifd = &o.ifds[k];
        let Some(Val::Offsets(_, offs)) = m.ifds[k].get(tag::TILE_OFFSETS) else { continue };
        let n = img.nx * img.ny;
        let bands = img.parts[0].len();
        let ranges = |x: usize, y: usize| -> Vec<Range<u64>> {
            (0..bands)
                .map(|b| {
                    let i = b * n + y * img.nx + x;
                    let at = w.blob_offsets[offs[i].unwrap()];
                    at..at + img.parts[y * img.nx + x][b].len() as u64
                })
                .collect()
        };
        let sorted = |mut v: Vec<Range<u64>>| {
            v.sort_by_key(|r| (r.start, r.end));
            v
        };
        let (x, y) = (s.us(0, img.nx - 1), s.us(0, img.ny - 1));
        let t = ok("fetch_tile", block_on("fetch_tile", ifd.fetch_tile(x, y, &*wrapped))?)?;
        let log = sh.take_log();
        let some = |v: Vec<Range<u64>>| sorted(v.into_iter().filter(|r| !r.is_empty()).collect());
        let got = some(flat_log(log));
        let want = some(ranges(x, y));
        ensure(got == want, || format!("fetching tile ({x},{y}) requested {got:?}, its bytes are {want:?}"))?;
        let whole = img.parts[y * img.nx + x].iter().all(|p| !p.is_empty());
        match decode(t)? {
            Ok(a) if whole => check_array(&a, &img.spec, &img.px[y * img.nx + x])?,
            Err(e) if whole => return Err(format!("decoding failed: {e}")),
            _ => {}
        }
        let log = sh.take_log();
        ensure(log.is_empty(), || format!("decoding requested {log:?}"))?;
        // several distinct tiles: one batch
        let p = s.perm(n);
        let cnt = s.us(1, n);
        let list: Vec<(usize, usize)> = p[..cnt].iter().map(|i| (i % img.nx, i / img.nx)).collect();
        ok("fetch_tiles", block_on("fetch_tiles", ifd.fetch_tiles(&list, &*wrapped))?)?;
        let log = sh.take_log();
        let want = some(list.iter().flat_map(|(x, y)| ranges(*x, *y)).collect());
        ensure(log.len() == 1 || (want.is_empty() && log.is_empty()), || {
            format!("fetching tiles {list:?} made {} requests: {log:?}", log.len())
        })?;
        let got = some(flat_log(log));
        ensure(got == want, || format!("fetching tiles {list:?} requested {got:?}, their bytes are {want:?}"))?;
    }
    Ok(())
}

