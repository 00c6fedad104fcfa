//! C01-C04: reading metadata.
use std::collections::BTreeMap;
use std::sync::Arc;

use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::{ImageFileDirectoryReader, MetadataFetch, TiffMetadataReader};
use async_tiff::{ImageFileDirectory, TagValue};
use bytes::Bytes;

use super::*;
use crate::io::*;

// ---------- C01 ----------

pub const C01: Check = Check {
    id: "C01",
    f: c01,
    quick: 800_000,
    thorough: 16_000_000,
    level: "exploration",
    rule: "a case is non-trivial if at least one entry is stored out of line or holds several values",
    assumptions: &[
        "the harness's TIFF writer is the reference for what a file stores",
        "tag ids within one directory are distinct; counts up to 70000 (strings 280000), directories of up to 6000 entries, offsets up to 4 MiB short of 2^64",
    ],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

fn gen_count(s: &mut Src) -> usize {
    match s.weighted(&[2, 5, 6, 4, 2, 1]) {
        0 => 0,
        1 => 1,
        2 => s.us(2, 9),
        3 => s.us(2, 40),
        4 => s.us(10, 600),
        _ => s.us(100, 6000),
    }
}

const SOME_TAGS: [u16; 20] = [
    256, 258, 269, 270, 271, 273, 282, 306, 320, 324, 325, 330, 347, 33432, 34735, 34737, 42112,
    50674, 65000, 65535,
];

fn gen_entries(s: &mut Src, max: usize) -> Ifd {
    let mut ifd = Ifd::default();
    for _ in 0..s.us(0, max) {
        let tag = if s.bool() { *s.pick(&SOME_TAGS) } else { s.ubits(16) as u16 };
        if ifd.get(tag).is_some() {
            continue;
        }
        let ty = *s.pick(&TYPES);
        let n = gen_count(s);
        ifd.set(tag, Val::gen(s, ty, n));
    }
    ifd
}

fn read_entries<F: MetadataFetch>(
    f: &F,
    w: &Written,
    i: usize,
    order: &[usize],
    whole: bool,
) -> Result<(Vec<(usize, u16, TagValue)>, Option<u64>, Option<ImageFileDirectory>), String> {
    let fl = w.flavour;
    let (rows, next, all) = crate::sched::block_on("reading directory entries", async {
        let r = ImageFileDirectoryReader::open(f, w.ifd_offsets[i], fl.bigtiff, fl.endianness()).await?;
        let mut rows = vec![];
        for k in order {
            let (t, v) = r.read_tag(f, *k as u64).await?;
            rows.push((*k, t.to_u16(), v));
        }
        let all = if whole { Some(r.read(f).await?) } else { None };
        let next = r.finish(f).await?;
        Ok::<_, async_tiff::error::AsyncTiffError>((rows, next, all))
    })?
    .map_err(|e| format!("reading the entries of directory {i} failed: {e}"))?;
    Ok((rows, next, all))
}

fn c01(s: &mut Src, cx: &mut Cx) -> R {
    let fl = Flavour::gen(s);
    let nifd = s.us(1, 2);
    let mut m = Model { ifds: (0..nifd).map(|_| gen_entries(s, 8)).collect(), blobs: vec![] };
    if s.chance(1, 1000) {
        // more values than 16 bits can count
        let (ty, n) = if s.chance(1, 4) { (2, s.us(65_530, 280_000)) } else { (*s.pick(&TYPES), s.us(65_530, 70_000)) };
        let v = Val::gen(s, ty, n);
        m.ifds[0].set(324, v);
        cx.label("very long list");
    } else if s.chance(1, 200) {
        let n = if s.chance(1, 20) { s.us(1300, 6000) } else { s.us(200, 400) } as u16;
        let ty = *s.pick(&TYPES);
        for k in 0..n {
            if m.ifds[0].get(k * 7 + 1).is_none() {
                let v = Val::gen(s, ty, 1 + (k % 2) as usize);
                m.ifds[0].set(k * 7 + 1, v);
            }
        }
        cx.label("many entries");
    }
    // so that the whole directory can be read at once, with every tag of the case unnamed
    let whole = s.chance(1, 4);
    if whole {
        for d in &mut m.ifds {
            d.entries.retain(|e| !STD.iter().any(|x| x.0 == e.tag) && !(34735..=34737).contains(&e.tag));
            d.entries.extend(minimal_ifd(3, 3).entries);
            d.entries.sort_by_key(|e| e.tag);
        }
        cx.label("whole directory");
    }
    let far = s.bool();
    let lay = Layout::gen(s, &m, fl, far);
    let mut w = write(&m, fl, &lay);
    // values may share their bytes with one another or lie anywhere
    if w.file.len < 1 << 22 && s.chance(1, 6) {
        let outer: Vec<(usize, usize)> = m
            .ifds
            .iter()
            .enumerate()
            .flat_map(|(i, d)| d.entries.iter().enumerate().map(move |(j, e)| (i, j, e.val.byte_len())))
            .filter(|x| x.2 > fl.inline_len() && x.2 < w.file.len)
            .map(|x| (x.0, x.1))
            .collect();
        if !outer.is_empty() {
            let starts: Vec<u64> = w.file.segs.keys().copied().filter(|k| *k > 0).collect();
            let mut f = (*w.file).clone();
            let mut moved = vec![];
            for _ in 0..s.us(1, 3) {
                let (i, j) = *s.pick(&outer);
                let e = &m.ifds[i].entries[j];
                let top = f.len - e.val.byte_len();
                let to = if s.bool() { *s.pick(&starts) } else { s.int(1, top) }.min(top);
                let at = w.ifd_offsets[i];
                let mut v = f.segs[&at].to_vec();
                let p = (fl.count_len() + fl.entry_len() * (j as u64 + 1) - fl.inline_len()) as usize;
                if fl.bigtiff {
                    v[p..p + 8].copy_from_slice(&fl.u64(to));
                } else {
                    v[p..p + 4].copy_from_slice(&fl.u32(to as u32));
                }
                f.segs.insert(at, v.into());
                moved.push((i, j, to));
            }
            for (i, j, _) in &moved {
                // (the last move of an entry holds)
                let to = moved.iter().rev().find(|m| (m.0, m.1) == (*i, *j)).unwrap().2;
                let e = &mut m.ifds[*i].entries[*j];
                let raw = f.read(to..to + e.val.byte_len());
                e.val = Val::parse(fl, e.val.ty(), &raw);
            }
            cx.note(|| format!("values moved (directory, entry, offset): {moved:?}"));
            cx.label("overlapping values");
            w.file = Arc::new(f);
        }
    }
    cx.note(|| format!("{} file of {} bytes, directories at {:?}", fl.name(), w.file.len, w.ifd_offsets));
    for (i, d) in m.ifds.iter().enumerate() {
        for e in &d.entries {
            cx.note(|| format!("ifd {i} tag {} type {} count {}: {}", e.tag, e.val.ty(), e.val.count(), tv_short(&e.val.expect())));
            if e.val.byte_len() > fl.inline_len() || e.val.count() > 1 {
                cx.nontrivial();
            }
            cx.label(format!("type {}", e.val.ty()));
        }
    }
    cx.label(fl.name());
    let near = w.file.len < 1 << 22;
    let via = if near { s.upto(2) } else { s.upto(1) };
    let eof = *s.pick(&[Eof::Cut, Eof::Strict, Eof::ErrorAtStart]);
    let sh = Shared::new(w.file.clone()).eof(if via == 2 { Eof::Cut } else { eof }).arc();
    // header
    let mem = Mem(sh.clone());
    let meta = MemMeta(sh.clone());
    let cache = ReadaheadMetadataCache::new(mem.clone())
        .with_initial_size(s.int(1, 200))
        .with_multiplier(1.0 + s.upto(20) as f64 / 10.0);
    let r = match via {
        0 => block_on("try_open", TiffMetadataReader::try_open(&mem))?,
        1 => block_on("try_open", TiffMetadataReader::try_open(&meta))?,
        _ => block_on("try_open", TiffMetadataReader::try_open(&cache))?,
    };
    let r = ok("opening the file", r)?;
    ensure(r.bigtiff() == fl.bigtiff, || format!("bigtiff() is {}", r.bigtiff()))?;
    ensure(r.endianness() == fl.endianness(), || format!("endianness() is {:?}", r.endianness()))?;
    ensure(r.next_ifd_offset() == Some(w.ifd_offsets[0]), || {
        format!("first directory at {:?} instead of {}", r.next_ifd_offset(), w.ifd_offsets[0])
    })?;
    for (i, d) in m.ifds.iter().enumerate() {
        let n = d.entries.len();
        let order = if n > 0 && s.chance(1, 3) { s.perm(n) } else { (0..n).collect() };
        let (rows, next, all) = match via {
            0 => read_entries(&mem, &w, i, &order, whole)?,
            1 => read_entries(&meta, &w, i, &order, whole)?,
            _ => read_entries(&cache, &w, i, &order, whole)?,
        };
        if let Some(all) = all {
            let named = minimal_ifd(3, 3);
            let want: BTreeMap<u16, &Val> =
                d.entries.iter().filter(|e| named.get(e.tag).is_none()).map(|e| (e.tag, &e.val)).collect();
            ensure(all.other_tags().len() == want.len(), || {
                format!("{} unnamed tags read, {} stored", all.other_tags().len(), want.len())
            })?;
            for (t, v) in all.other_tags() {
                let want = want.get(&t.to_u16()).ok_or_else(|| format!("tag {t:?} is not in the file"))?.expect();
                ensure(tv_eq(v, &want), || format!("tag {t:?} read as {}, stored {}", tv_short(v), tv_short(&want)))?;
            }
        }
        for (k, t, v) in rows {
            let e = &d.entries[k];
            ensure(t == e.tag, || format!("entry {k} has tag {t}, stored {}", e.tag))?;
            let want = e.val.expect();
            ensure(tv_eq(&v, &want), || {
                format!(
                    "tag {} (type {}, count {}) read as {}, stored {}",
                    e.tag, e.val.ty(), e.val.count(), tv_short(&v), tv_short(&want)
                )
            })?;
        }
        let want = w.ifd_offsets.get(i + 1).copied();
        ensure(next == want, || format!("next directory is {next:?}, stored {want:?}"))?;
    }
    Ok(())
}

// ---------- C02 ----------

pub const C02: Check = Check {
    id: "C02",
    f: c02,
    quick: 1_800_000,
    thorough: 36_000_000,
    level: "exploration",
    rule: "a case is non-trivial if it has at least three optional standard tags or is an error case",
    assumptions: &[
        "strings have at least one stored byte; resolutions are RATIONAL, geo transforms DOUBLE, JPEGTables BYTE or UNDEFINED, as the specifications require",
        "unrecognised codes of the optional PlanarConfiguration, Predictor and ResolutionUnit tags count as absent",
        "GeoKeyDirectory and its parameter tags are decided by C18",
    ],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    U32,
    U16,
    U16V,
    U64V,
    U8V,
    Str,
    F64V,
    Rat,
    U32V,
}

const STD: &[(u16, &str, Kind)] = &[
    (254, "new_subfile_type", Kind::U32),
    (256, "image_width", Kind::U32),
    (257, "image_height", Kind::U32),
    (258, "bits_per_sample", Kind::U16V),
    (259, "compression", Kind::U16),
    (262, "photometric_interpretation", Kind::U16),
    (269, "document_name", Kind::Str),
    (270, "image_description", Kind::Str),
    (273, "strip_offsets", Kind::U64V),
    (274, "orientation", Kind::U16),
    (277, "samples_per_pixel", Kind::U16),
    (278, "rows_per_strip", Kind::U32),
    (279, "strip_byte_counts", Kind::U64V),
    (280, "min_sample_value", Kind::U16V),
    (281, "max_sample_value", Kind::U16V),
    (282, "x_resolution", Kind::Rat),
    (283, "y_resolution", Kind::Rat),
    (284, "planar_configuration", Kind::U16),
    (296, "resolution_unit", Kind::U16),
    (305, "software", Kind::Str),
    (306, "date_time", Kind::Str),
    (315, "artist", Kind::Str),
    (316, "host_computer", Kind::Str),
    (317, "predictor", Kind::U16),
    (320, "colormap", Kind::U16V),
    (322, "tile_width", Kind::U32),
    (323, "tile_height", Kind::U32),
    (324, "tile_offsets", Kind::U64V),
    (325, "tile_byte_counts", Kind::U64V),
    (338, "extra_samples", Kind::U16V),
    (339, "sample_format", Kind::U16V),
    (347, "jpeg_tables", Kind::U8V),
    (33432, "copyright", Kind::Str),
    (33550, "model_pixel_scale", Kind::F64V),
    (33922, "model_tiepoint", Kind::F64V),
    (34264, "model_transformation", Kind::F64V),
    (42112, "gdal_metadata", Kind::Str),
    (42113, "gdal_nodata", Kind::Str),
    (50674, "lerc_parameters", Kind::U32V),
];

/// Registered tags that have no accessor.
const UNNAMED: [u16; 64] = [
    0, 1, 253, 255, 260, 261, 263, 264, 265, 266, 271, 272, 285, 286, 287, 288, 289, 290, 291, 292, 293, 297, 300, 301,
    318, 319, 321, 326, 327, 328, 330, 332, 333, 334, 336, 337, 340, 341, 342, 343, 344, 346, 512, 513, 514, 529, 530,
    531, 532, 700, 32781, 33421, 33434, 33723, 34377, 34665, 34675, 34853, 37724, 40965, 50706, 50844, 65534, 65535,
];

const REQUIRED: [u16; 5] = [256, 257, 258, 262, 277];

/// Store integers in some unsigned width that holds them all.
fn store_ints(s: &mut Src, v: &[u64]) -> Val {
    let max = v.iter().copied().max().unwrap_or(0);
    let min_w = if max < 1 << 8 {
        0
    } else if max < 1 << 16 {
        1
    } else if max < 1 << 32 {
        2
    } else {
        3
    };
    match s.int(min_w, 3) {
        0 => Val::Byte(v.iter().map(|x| *x as u8).collect()),
        1 => Val::Short(v.iter().map(|x| *x as u16).collect()),
        2 => Val::Long(v.iter().map(|x| *x as u32).collect()),
        _ => Val::Long8(v.to_vec()),
    }
}

fn opt<T: std::fmt::Debug>(v: T) -> String {
    format!("{:?}", Some(v))
}

fn c02(s: &mut Src, cx: &mut Cx) -> R {
    let mut ifd = Ifd::default();
    let mut exp: BTreeMap<&'static str, String> = BTreeMap::new();
    // defaults
    for (_, name, _) in STD {
        exp.insert(name, "None".into());
    }
    exp.insert("geo_key_directory", "None".into());
    exp.insert("compression", "None".into());
    exp.insert("planar_configuration", "Chunky".into());
    let mut spp = 1u64;
    let mut dims: BTreeMap<u16, u64> = BTreeMap::new();
    let dense = s.int(1, 4);
    let mut optional = 0;
    let mut has_fmt = false;
    for (t, name, kind) in STD.iter().copied() {
        let required = REQUIRED.contains(&t);
        if !required && s.upto(4) >= dense {
            continue;
        }
        if !required {
            optional += 1;
        }
        match kind {
            Kind::U32 => {
                let v = s.ubits(32);
                ifd.set(t, store_ints(s, &[v]));
                dims.insert(t, v);
                exp.insert(name, if required { format!("{v}") } else { opt(v) });
            }
            Kind::U16 => {
                let v = match t {
                    262 => *s.pick(&[1u64, 0, 2, 3, 4, 5, 6, 8]),
                    284 => *s.pick(&[1u64, 2, 1, 2, 0, 3, 65535]),
                    317 => *s.pick(&[1u64, 2, 3, 1, 2, 3, 0, 4, 34892]),
                    296 => *s.pick(&[1u64, 2, 3, 1, 2, 3, 0, 4, 9]),
                    277 => {
                        if s.chance(1, 8) {
                            s.int(0, 300)
                        } else {
                            s.int(1, 5)
                        }
                    }
                    259 => {
                        if s.bool() {
                            *s.pick(&[1u64, 5, 7, 8, 32946, 34712, 34887, 34925, 50000, 50001, 32773, 2, 3, 4, 6])
                        } else {
                            s.ubits(16)
                        }
                    }
                    _ => s.ubits(16),
                };
                ifd.set(t, store_ints(s, &[v]));
                let named = |table: &[(u16, &'static str)]| table.iter().find(|x| x.0 as u64 == v).map(|x| x.1);
                let e = match t {
                    262 => named(super::tags::PHOTOMETRIC).unwrap().to_string(),
                    259 => named(super::tags::COMPRESSION)
                        .map(|x| x.to_string())
                        .unwrap_or_else(|| format!("Unknown({v})")),
                    284 => named(super::tags::PLANAR).unwrap_or("Chunky").to_string(),
                    317 => named(super::tags::PREDICTOR).map(|x| format!("Some({x})")).unwrap_or("None".into()),
                    296 => named(super::tags::RES_UNIT).map(|x| format!("Some({x})")).unwrap_or("None".into()),
                    277 => {
                        spp = v;
                        format!("{v}")
                    }
                    _ => opt(v),
                };
                exp.insert(name, e);
            }
            Kind::U16V => {
                let n = match s.upto(3) {
                    0 => 1,
                    1 => s.us(0, 4),
                    _ => s.us(0, 20),
                };
                let n = if t == 258 { n.max(1) } else { n };
                let n = if s.chance(1, 150) { *s.pick(&[256usize, 768, 3072]) + s.us(0, 3) } else { n };
                let sd = if n > 100 { s.seed() } else { 0 };
                let v: Vec<u64> = (0..n)
                    .map(|i| match t {
                        _ if n > 100 => {
                            let mut st = sd.wrapping_add(i as u64);
                            let x = splitmix(&mut st);
                            match t {
                                338 => x % 3,
                                339 => 1 + x % 4,
                                _ => x & 0xffff,
                            }
                        }
                        338 => s.upto(2),
                        339 if s.chance(3, 4) => s.int(1, 4),
                        _ => s.ubits(16),
                    })
                    .collect();
                ifd.set(t, store_ints(s, &v));
                let e = match t {
                    258 => format!("{v:?}"),
                    338 => {
                        let x: Vec<String> =
                            v.iter().map(|c| super::tags::EXTRA[*c as usize].1.to_string()).collect();
                        format!("Some([{}])", x.join(", "))
                    }
                    339 => {
                        has_fmt = true;
                        let x: Vec<String> = v
                            .iter()
                            .map(|c| {
                                super::tags::SAMPLE_FORMAT
                                    .iter()
                                    .find(|x| x.0 as u64 == *c)
                                    .map(|x| x.1.to_string())
                                    .unwrap_or_else(|| format!("Unknown({c})"))
                            })
                            .collect();
                        format!("[{}]", x.join(", "))
                    }
                    _ => opt(&v),
                };
                exp.insert(name, e);
            }
            Kind::U64V => {
                let n = if s.chance(1, 150) {
                    s.us(200, 1200)
                } else if s.bool() {
                    1
                } else {
                    s.us(0, 12)
                };
                let bits = *s.pick(&[16, 32, 64]);
                let mut sd = if n > 100 { s.seed() } else { 0 };
                let v: Vec<u64> = (0..n)
                    .map(|_| if n > 100 { splitmix(&mut sd) >> (64 - bits) } else { s.ubits(bits) })
                    .collect();
                ifd.set(t, store_ints(s, &v));
                exp.insert(name, opt(&v));
            }
            Kind::U32V => {
                let n = if s.bool() { 2 } else { s.us(0, 12) };
                let v: Vec<u64> = (0..n).map(|_| s.ubits(32)).collect();
                ifd.set(t, store_ints(s, &v));
                exp.insert(name, opt(&v));
            }
            Kind::U8V => {
                let n = if s.bool() { s.us(0, 6) } else { s.us(0, 600) };
                let sd = s.seed();
                let v = bulk(sd, n);
                exp.insert(name, opt(&v));
                ifd.set(t, if s.bool() { Val::Undef(v) } else { Val::Byte(v) });
            }
            Kind::Str => {
                let n = if s.chance(1, 300) {
                    s.us(1000, 70_000)
                } else if s.bool() {
                    s.us(1, 9)
                } else {
                    s.us(1, 200)
                };
                let v = Val::gen(s, 2, n);
                match v.expect() {
                    TagValue::Ascii(x) => exp.insert(name, opt(x)),
                    _ => unreachable!(),
                };
                ifd.set(t, v);
            }
            Kind::F64V => {
                let n = if s.chance(1, 20) { s.us(7, 60) } else { *s.pick(&[3usize, 1, 6, 16, 0, 2]) };
                let v: Vec<u64> = (0..n).map(|_| s.ubits(64)).collect();
                exp.insert(name, opt(v.iter().map(|x| f64::from_bits(*x)).collect::<Vec<_>>()));
                ifd.set(t, Val::Double(v));
            }
            Kind::Rat => {
                let (n, d) = (s.ubits(32) as u32, s.ubits(32) as u32);
                exp.insert(name, opt(n as f64 / d as f64));
                ifd.set(t, Val::Rational(vec![(n, d)]));
            }
        }
    }
    if !has_fmt {
        exp.insert("sample_format", format!("[{}]", vec!["Uint"; spp as usize].join(", ")));
    }
    let ceil = |a: u64, b: u64| a / b + (a % b != 0) as u64;
    exp.insert(
        "tile_count",
        match (dims.get(&322), dims.get(&323)) {
            (Some(w), Some(h)) if *w > 0 && *h > 0 => opt((ceil(dims[&256], *w), ceil(dims[&257], *h))),
            _ => "None".into(),
        },
    );
    // tags without an accessor
    let mut other: BTreeMap<u16, TagValue> = BTreeMap::new();
    for _ in 0..s.us(0, 4) {
        let t = if s.bool() { *s.pick(&UNNAMED) } else { s.ubits(16) as u16 };
        if STD.iter().any(|x| x.0 == t) || (34735..=34737).contains(&t) || ifd.get(t).is_some() {
            continue;
        }
        let ty = *s.pick(&TYPES);
        let n = s.us(0, 6);
        let v = Val::gen(s, ty, n);
        other.insert(t, v.expect());
        ifd.set(t, v);
    }
    // now and then, many of them, from anywhere
    if s.chance(1, 60) {
        let mut sd = s.seed();
        let shift = s.upto(8);
        for k in 0..s.us(1, 300) {
            let t = (splitmix(&mut sd) >> 48 >> shift) as u16;
            if STD.iter().any(|x| x.0 == t) || (34735..=34737).contains(&t) || ifd.get(t).is_some() {
                continue;
            }
            let v = if k % 2 == 0 { Val::Short(vec![k as u16]) } else { Val::Ascii(b"text\0".to_vec()) };
            other.insert(t, v.expect());
            ifd.set(t, v);
        }
        cx.label("many unnamed tags");
    }
    // optionally make it unreadable
    let mut bad: Option<String> = None;
    if s.chance(1, 3) {
        let scalars: Vec<(u16, Kind)> = STD
            .iter()
            .filter(|x| matches!(x.2, Kind::U32 | Kind::U16))
            .map(|x| (x.0, x.2))
            .collect();
        match s.upto(7) {
            7 => {
                // a value of a kind that cannot be meant
                let (t, name, k) = *s.pick(STD);
                let v = match k {
                    Kind::Str => match s.upto(3) {
                        0 => Val::Short(vec![s.ubits(16) as u16]),
                        1 => Val::Double(vec![s.ubits(64)]),
                        2 => Val::Long(vec![s.ubits(32) as u32, 1]),
                        _ => Val::Rational(vec![(1, 2)]),
                    },
                    Kind::Rat => Val::Ascii(b"72\0".to_vec()),
                    // (the list conversions take text and fractions apart)
                    Kind::U64V | Kind::U32V => match s.upto(1) {
                        0 => Val::Double(vec![s.ubits(64)]),
                        _ => Val::SLong(vec![-1 - s.ubits(30) as i32]),
                    },
                    _ => match s.upto(1) {
                        0 => Val::Ascii(b"1\0".to_vec()),
                        _ => Val::Rational(vec![(s.ubits(32) as u32, s.ubits(32) as u32)]),
                    },
                };
                bad = Some(format!("tag {t} ({name}) cannot be {v:?}"));
                ifd.set(t, v);
            }
            0 => {
                let t = *s.pick(&REQUIRED);
                ifd.remove(t);
                bad = Some(format!("required tag {t} is missing"));
            }
            1 => {
                let (t, k) = *s.pick(&scalars);
                let v = if k == Kind::U32 {
                    Val::Long8(vec![(1u64 << 32) + s.ubits(31)])
                } else if s.bool() {
                    Val::Long(vec![65536 + s.ubits(24) as u32])
                } else {
                    Val::Long8(vec![65536 + s.ubits(60)])
                };
                bad = Some(format!("tag {t} overflows: {v:?}"));
                ifd.set(t, v);
            }
            2 => {
                let (t, _) = *s.pick(&scalars);
                let k = 1 + s.ubits(7) as i32;
                let v = match s.upto(3) {
                    0 => Val::SByte(vec![(-k) as i8 | i8::MIN]),
                    1 => Val::SShort(vec![-(k as i16)]),
                    2 => Val::SLong(vec![-k]),
                    _ => Val::SLong8(vec![-(k as i64)]),
                };
                bad = Some(format!("tag {t} is negative: {v:?}"));
                ifd.set(t, v);
            }
            3 => {
                let (t, _) = *s.pick(&scalars);
                bad = Some(format!("tag {t} is text"));
                ifd.set(t, Val::Ascii(b"wide\0".to_vec()));
            }
            4 => {
                let (t, _) = *s.pick(&scalars);
                bad = Some(format!("tag {t} has two different values"));
                ifd.set(t, Val::Short(vec![1, 2]));
            }
            5 => {
                let vecs = [258u16, 280, 281, 320, 338, 339];
                let t = *s.pick(&vecs);
                let n = s.us(1, 4);
                let k = s.us(0, n - 1);
                let v: Vec<u32> = (0..n).map(|i| if i == k { 65536 + s.ubits(20) as u32 } else { 1 }).collect();
                bad = Some(format!("tag {t} overflows: {v:?}"));
                ifd.set(t, Val::Long(v));
            }
            _ => {
                if s.bool() {
                    let c = *s.pick(&[7u16, 9, 10, 11, 100, 32803, 34892, 65535]);
                    bad = Some(format!("unknown photometric interpretation {c}"));
                    ifd.set(262, Val::Short(vec![c]));
                } else {
                    let c = 3 + s.upto(65532) as u16;
                    bad = Some(format!("unknown extra sample kind {c}"));
                    ifd.set(338, Val::Short(if s.bool() { vec![c] } else { vec![0, c] }));
                }
            }
        }
    }
    for e in &ifd.entries {
        cx.note(|| format!("tag {} = {:?}", e.tag, cut(&format!("{:?}", e.val))));
    }
    if let Some(b) = &bad {
        cx.note(|| b.clone());
        cx.label("error case");
        cx.nontrivial();
    }
    if optional >= 3 {
        cx.nontrivial();
    }
    let fl = Flavour::gen(s);
    let got = if s.bool() {
        cx.label("from_tags");
        let tags = tag_map(&ifd, &[]);
        sut("from_tags", || ImageFileDirectory::from_tags(tags, fl.endianness()))?
    } else {
        cx.label(fl.name());
        let m = Model { ifds: vec![ifd.clone()], blobs: vec![] };
        let lay = Layout::gen(s, &m, fl, false);
        let w = write(&m, fl, &lay);
        let mem = Mem(Shared::new(w.file.clone()).arc());
        match open_sync(&mem)? {
            Ok(mut o) => {
                ensure(o.ifds.len() == 1, || format!("{} directories", o.ifds.len()))?;
                Ok(o.ifds.remove(0))
            }
            Err(e) => Err(e),
        }
    };
    match (got, bad) {
        (Err(_), Some(_)) => Ok(()),
        (Ok(_), Some(b)) => Err(format!("{b}, but reading succeeded")),
        (Err(e), None) => Err(format!("reading a valid directory failed: {e}")),
        (Ok(i), None) => {
            for (name, v) in dump_full(&i) {
                if name == "other_tags" {
                    continue;
                }
                let want = exp.get(name).ok_or_else(|| format!("HARNESS: no expectation for {name}"))?;
                ensure(&v == want, || format!("{name} is {}, stored {}", cut(&v), cut(want)))?;
            }
            let got: BTreeMap<u16, &TagValue> = i.other_tags().iter().map(|(t, v)| (t.to_u16(), v)).collect();
            ensure(got.keys().eq(other.keys()), || {
                format!("other tags are {:?}, expected {:?}", got.keys(), other.keys())
            })?;
            ensure(i.other_tags().len() == other.len(), || "duplicate other tags".into())?;
            for (t, v) in &other {
                ensure(tv_eq(got[t], v), || {
                    format!("other tag {t} is {}, stored {}", tv_short(got[t]), tv_short(v))
                })?;
            }
            Ok(())
        }
    }
}

// ---------- C03 ----------

pub const C03: Check = Check {
    id: "C03",
    f: c03,
    quick: 1_600_000,
    thorough: 32_000_000,
    level: "exploration",
    rule: "a case is non-trivial if the chain has at least two directories, loops, or a read fails",
    assumptions: &["chains of up to 14 directories; looping files are bounded by a budget of source reads"],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

/// Small directories that differ from one another.
fn gen_chain(s: &mut Src, n: usize) -> Vec<Ifd> {
    let mut v: Vec<Ifd> = vec![];
    for i in 0..n {
            let mut d = minimal_ifd(i as u32 + 1, 7);
            match s.upto(15) {
                // an exact copy of the one before, or a degenerate image
                1 => {
                    if let Some(p) = v.last() {
                        d = p.clone();
                        v.push(d);
                        continue;
                    }
                }
                2 => d = minimal_ifd(0, 0),
                3 => d = minimal_ifd(0, i as u32),
                _ => {}
            }
            for _ in 0..s.us(0, 3) {
                let t = 40_000 + s.upto(200) as u16;
                if d.get(t).is_none() {
                    let ty = *s.pick(&TYPES);
                    let n = s.us(0, 5);
                    d.set(t, Val::gen(s, ty, n));
                }
            }
            v.push(d);
    }
    v
}

pub fn expected_dump(w: &Written, d: &Ifd) -> Result<Vec<(&'static str, String)>, String> {
    let i = sut("from_tags", || ImageFileDirectory::from_tags(tag_map(d, &w.blob_offsets), w.flavour.endianness()))?;
    Ok(dump_full(&ok("from_tags on a valid directory", i)?))
}

/// Overwrite the next-directory pointer of directory `i`.
pub fn patch_next(w: &Written, i: usize, to: u64) -> Arc<SparseFile> {
    let mut f = (*w.file).clone();
    let off = w.ifd_offsets[i];
    let b = f.segs.get(&off).unwrap();
    let mut v = b.to_vec();
    let n = w.flavour.inline_len() as usize;
    let at = v.len() - n;
    if w.flavour.bigtiff {
        v[at..].copy_from_slice(&w.flavour.u64(to));
    } else {
        v[at..].copy_from_slice(&w.flavour.u32(to as u32));
    }
    f.segs.insert(off, v.into());
    Arc::new(f)
}

/// Whether there certainly is no readable directory at `at`: it reaches past the end, or lacks a
/// required tag.
fn unreadable(f: &SparseFile, fl: &Flavour, at: Option<u64>) -> bool {
    let Some(at) = at else { return false };
    let num = |at: u64, n: u64| -> Option<u64> {
        let b = f.read(at..at.checked_add(n)?);
        if b.len() as u64 != n {
            return None;
        }
        Some(b.iter().enumerate().fold(0u64, |a, (i, x)| {
            if fl.big_endian { a << 8 | *x as u64 } else { a | (*x as u64) << (8 * i) }
        }))
    };
    let head = if fl.bigtiff { 8 } else { 2 };
    let Some(cnt) = num(at, head) else { return true };
    let whole = cnt
        .checked_mul(fl.entry_len())
        .and_then(|n| n.checked_add(at + head + fl.inline_len()))
        .is_some_and(|end| end <= f.len);
    if !whole {
        return true;
    }
    if cnt > 70_000 {
        return false;
    }
    let ids: std::collections::HashSet<u64> =
        (0..cnt).filter_map(|i| num(at + head + i * fl.entry_len(), 2)).collect();
    REQUIRED.iter().any(|r| !ids.contains(&(*r as u64)))
}

fn c03(s: &mut Src, cx: &mut Cx) -> R {
    let fl = Flavour::gen(s);
    let n = if s.chance(1, 3000) {
        s.us(1000, 2600)
    } else if s.chance(1, 500) {
        s.us(60, 300)
    } else if s.chance(1, 10) {
        s.us(1, 14)
    } else {
        s.us(1, 6)
    };
    let m = Model { ifds: gen_chain(s, n), blobs: vec![] };
    let mode = s.upto(4);
    // (a damaged link must not lead into a sparse file of terabytes)
    let far = s.chance(1, 3) && mode != 4;
    let lay = Layout::gen(s, &m, fl, far);
    let mut w = write(&m, fl, &lay);
    let want: Vec<_> = m.ifds.iter().map(|d| expected_dump(&w, d)).collect::<Result<_, _>>()?;
    cx.note(|| format!("{} file, {n} directories at {:?}, mode {mode}", fl.name(), w.ifd_offsets));
    if n > 1 {
        cx.nontrivial();
    }
    cx.label(["sequence", "read_all", "loop", "faults", "damaged link"][mode as usize]);
    let mut last = n - 1;
    let mut to = 0;
    if mode == 2 {
        last = s.us(0, n - 1);
        to = s.us(0, last);
        cx.note(|| format!("directory {last} points back to directory {to}"));
        w.file = patch_next(&w, last, w.ifd_offsets[to]);
        cx.nontrivial();
    }
    // a directory, or the link to it, that cannot be read
    let mut stop = (0, None);
    if mode == 4 {
        let k = s.us(0, n - 1);
        let end = w.file.len;
        if k + 1 < n && s.bool() {
            // the next directory lacks a required tag
            let off = w.ifd_offsets[k + 1];
            let mut f = (*w.file).clone();
            let mut v = f.segs.get(&off).unwrap().to_vec();
            let e = w.flavour.entry_len() as usize;
            let head = if w.flavour.bigtiff { 8 } else { 2 };
            let cnt = (v.len() - head - w.flavour.inline_len() as usize) / e;
            let gone = w.flavour.u16(*s.pick(&REQUIRED));
            for i in 0..cnt {
                let at = head + e * i;
                if v[at..at + 2] == gone {
                    v[at..at + 2].copy_from_slice(&w.flavour.u16(60_001));
                }
            }
            f.segs.insert(off, v.into());
            w.file = Arc::new(f);
            stop = (k + 1, Some(off));
        } else {
            let mut to = match s.upto(2) {
                0 => s.int(1, 7),
                1 => end + s.int(0, 1000),
                _ => end - 1,
            };
            if !fl.bigtiff {
                to = to.min(u32::MAX as u64);
            }
            w.file = patch_next(&w, k, to);
            stop = (k + 1, Some(to));
        }
        cx.note(|| format!("what follows directory {k} is damaged, link {:?}", stop.1));
        cx.nontrivial();
    }
    let sh = Shared::new(w.file.clone()).budget(20_000 + 1_000 * n as u64).arc();
    let mem = Mem(sh.clone());
    let eq = |i: &ImageFileDirectory, k: usize| -> R {
        match diff_dumps(&dump_full(i), &want[k]) {
            None => Ok(()),
            Some(d) => Err(format!("directory {k} differs from the file: {d}")),
        }
    };
    let at = |r: &TiffMetadataReader, k: usize| -> R {
        let want = w.ifd_offsets.get(k).copied();
        ensure(r.has_next_ifd() == want.is_some(), || {
            format!("has_next_ifd() is {} before directory {k} of {n}", r.has_next_ifd())
        })?;
        ensure(r.next_ifd_offset() == want, || {
            format!("next_ifd_offset() is {:?} before directory {k}, expected {want:?}", r.next_ifd_offset())
        })
    };
    let mut r = ok("opening", block_on("try_open", TiffMetadataReader::try_open(&mem))?)?;
    match mode {
        2 => {
            if s.bool() {
                let res = block_on("read_all_ifds", r.read_all_ifds(&mem))?;
                ensure(!sh.exhausted(), || "a looping chain was followed past 20000 reads and more".into())?;
                ensure(res.is_err(), || "a looping chain was read without error".into())
            } else {
                let mut k = 0;
                loop {
                    let before = r.next_ifd_offset();
                    ensure(r.has_next_ifd() && before.is_some(), || format!("no next directory after {k} of a looping chain"))?;
                    let res = block_on("read_next_ifd", r.read_next_ifd(&mem))?;
                    ensure(!sh.exhausted(), || "a looping chain was followed past 20000 reads and more".into())?;
                    match res {
                        Err(_) => {
                            ensure(k == last + 1, || format!("a chain looping after directory {last} failed before directory {k}"))?;
                            ensure(before == Some(w.ifd_offsets[to]), || {
                                format!("after directory {last}, which links to {}, the next directory is {before:?}", w.ifd_offsets[to])
                            })?;
                            let again = block_on("read_next_ifd", r.read_next_ifd(&mem))?;
                            return ensure(again.is_err(), || "a looping chain was reported once, then accepted".into());
                        }
                        Ok(None) => return Err("a looping chain ended without error".into()),
                        Ok(Some(i)) => {
                            ensure(k <= last, || format!("directory {k} of a looping chain was returned again"))?;
                            eq(&i, k)?;
                            k += 1;
                        }
                    }
                }
            }
        }
        4 => {
            let (k, link) = stop;
            if s.bool() {
                let res = block_on("read_all_ifds", r.read_all_ifds(&mem))?;
                if sh.exhausted() {
                    // the link leads to what looks like a directory as long as the (sparse) file
                    return Ok(());
                }
                if unreadable(&w.file, &w.flavour, link) {
                    ensure(res.is_err(), || format!("what follows directory {} is damaged, but reading all succeeded", k - 1))?;
                }
                return Ok(());
            }
            for j in 0..k {
                at(&r, j)?;
                let i = ok("read_next_ifd", block_on("read_next_ifd", r.read_next_ifd(&mem))?)?
                    .ok_or_else(|| format!("the sequence ended after {j} directories"))?;
                eq(&i, j)?;
            }
            for _ in 0..2 {
                ensure(r.has_next_ifd() && r.next_ifd_offset() == link, || {
                    format!("the next directory is at {:?}, the file says {link:?}", r.next_ifd_offset())
                })?;
                let res = block_on("read_next_ifd", r.read_next_ifd(&mem))?;
                if sh.exhausted() {
                    // the link leads to what looks like a directory as long as the (sparse) file
                    return Ok(());
                }
                if !unreadable(&w.file, &w.flavour, link) {
                    return Ok(());
                }
                ensure(res.is_err(), || "a damaged directory was read without error".into())?;
            }
            Ok(())
        }
        3 => {
            cx.nontrivial();
            // fail some reads; retry until the whole sequence has been seen
            let p = s.int(1, 12);
            let seed = s.seed();
            let mut st = seed;
            let left = Arc::new(std::sync::atomic::AtomicU64::new(s.int(1, 8)));
            let l2 = left.clone();
            sh.set_faults(move |_| {
                if splitmix(&mut st) % 64 < p && l2.load(std::sync::atomic::Ordering::SeqCst) > 0 {
                    l2.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
                    Fault::Error
                } else {
                    Fault::None
                }
            });
            let mut k = 0;
            let mut errs = 0;
            let bulk_reads = s.bool();
            loop {
                at(&r, k)?;
                if bulk_reads && s.chance(1, 2) {
                    // all of the rest at once; on failure the reader stays at a directory of the chain
                    match block_on("read_all_ifds", r.read_all_ifds(&mem))? {
                        Ok(v) => {
                            ensure(v.len() == n - k, || format!("reading the rest from directory {k} gave {} of {} directories", v.len(), n - k))?;
                            for (j, i) in v.iter().enumerate() {
                                eq(i, k + j)?;
                            }
                            at(&r, n)?;
                            break;
                        }
                        Err(e) => {
                            errs += 1;
                            ensure(errs <= 8, || format!("still failing after all faults cleared: {e}"))?;
                            let p = r.next_ifd_offset();
                            k = (k..n).find(|j| Some(w.ifd_offsets[*j]) == p).ok_or_else(|| {
                                format!("after a failed read_all_ifds from directory {k} the reader is at {p:?}")
                            })?;
                            continue;
                        }
                    }
                }
                match block_on("read_next_ifd", r.read_next_ifd(&mem))? {
                    Ok(Some(i)) => {
                        ensure(k < n, || "more directories than the file has".into())?;
                        eq(&i, k)?;
                        k += 1;
                    }
                    Ok(None) => {
                        ensure(k == n, || format!("the sequence ended after {k} of {n} directories"))?;
                        break;
                    }
                    Err(e) => {
                        errs += 1;
                        ensure(errs <= 8, || format!("still failing after all faults cleared: {e}"))?;
                    }
                }
            }
            if errs > 0 {
                cx.label("a read failed and was retried");
            }
            Ok(())
        }
        _ => {
            let upfront = if mode == 1 { s.us(0, n) } else { n };
            for k in 0..upfront {
                at(&r, k)?;
                let i = ok("read_next_ifd", block_on("read_next_ifd", r.read_next_ifd(&mem))?)?
                    .ok_or_else(|| format!("the sequence ended after {k} of {n} directories"))?;
                eq(&i, k)?;
            }
            at(&r, upfront)?;
            let rest = if mode == 1 && s.bool() {
                let t = ok("read", block_on("read", r.read(&mem))?)?;
                ensure(t.endianness() == fl.endianness(), || "TIFF::endianness differs".into())?;
                t.ifds().to_vec()
            } else {
                ok("read_all_ifds", block_on("read_all_ifds", r.read_all_ifds(&mem))?)?
            };
            ensure(rest.len() == n - upfront, || {
                format!("reading the rest gave {} directories, expected {}", rest.len(), n - upfront)
            })?;
            for (j, i) in rest.iter().enumerate() {
                eq(i, upfront + j)?;
            }
            at(&r, n)?;
            for _ in 0..2 {
                let x = ok("read_next_ifd at the end", block_on("read_next_ifd", r.read_next_ifd(&mem))?)?;
                ensure(x.is_none(), || "a directory after the last".into())?;
            }
            Ok(())
        }
    }
}

// ---------- C04 ----------

pub const C04: Check = Check {
    id: "C04",
    f: c04,
    quick: 40_000,
    thorough: 800_000,
    level: "exploration",
    rule: "every case compares all four container flavours; non-trivial if it decodes at least two tiles or has at least three descriptive tags",
    assumptions: &["multi-byte LERC tiles are left out (their byte order in MM files is ambiguous)"],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

fn c04(s: &mut Src, cx: &mut Cx) -> R {
    let nimg = s.us(1, 2);
    let mut imgs = vec![];
    for _ in 0..nimg {
        let mut spec = Spec::gen(s, &SpecOpts { max_side: 24, max_spp: 5, byte_only: false, max_bytes: 4000 });
        if matches!(spec.codec, Codec::Lerc(_)) && spec.dt.size() > 1 {
            spec.codec = Codec::Deflate;
        }
        let nx = s.us(1, 3);
        let ny = s.us(1, 2);
        let seed_at = s.rec.len();
        let _ = seed_at;
        let Some(img) = Img::with_spec(s, spec, nx, ny) else { return Ok(()) };
        imgs.push(img);
    }
    // descriptive tags
    let mut extra: Vec<Ifd> = vec![];
    let mut ntags = 0;
    for _ in 0..nimg {
        let mut d = Ifd::default();
        for _ in 0..s.us(0, 5) {
            let (t, v) = match s.upto(6) {
                0 => {
                    let n = s.us(1, 40);
                    (*s.pick(&[269u16, 270, 305, 306, 315, 316, 33432, 42112, 42113]), Val::gen(s, 2, n))
                }
                1 => (*s.pick(&[282u16, 283]), Val::gen(s, 5, 1)),
                2 => {
                    let n = s.us(1, 16);
                    (*s.pick(&[33550u16, 33922, 34264]), Val::gen(s, 12, n))
                }
                3 => {
                    let n = s.us(1, 20);
                    (*s.pick(&[280u16, 281, 320]), Val::gen(s, 3, n))
                }
                4 => (
                    34735,
                    Val::Short(vec![1, 1, 0, 2, 1024, 0, 1, s.ubits(16) as u16, 3072, 0, 1, s.ubits(16) as u16]),
                ),
                _ => {
                    let ty = *s.pick(&TYPES);
                    let n = s.us(0, 10);
                    (50_000 + 2 + s.upto(500) as u16, Val::gen(s, ty, n))
                }
            };
            if d.get(t).is_none() {
                d.set(t, v);
                ntags += 1;
            }
        }
        extra.push(d);
    }
    let mut first: Option<(Vec<Vec<(&'static str, String)>>, &'static str)> = None;
    let ntiles: usize = imgs.iter().map(|i| i.nx * i.ny).sum();
    if ntiles >= 2 || ntags >= 3 {
        cx.nontrivial();
    }
    for i in &imgs {
        cx.note(|| i.show());
        cx.label(i.spec.codec.name());
    }
    for fl in Flavour::all() {
        // same pixels, encoded for this byte order
        let mut these = vec![];
        for img in &imgs {
            let mut im = img.clone();
            im.spec.big_endian = fl.big_endian;
            let mut parts = vec![];
            for p in &im.px {
                let Some(e) = encode_tile(&im.spec, p) else { return Ok(()) };
                parts.push(e.into_iter().map(Bytes::from).collect());
            }
            im.parts = parts;
            im.style = s.upto(15) & 8 | img.style & 7;
            these.push(im);
        }
        let mut m = Model::default();
        for (im, ex) in these.iter().zip(&extra) {
            let mut d = im.ifd(&mut m.blobs, fl.bigtiff);
            if d.get(tag::SAMPLE_FORMAT).is_none() && im.spec.dt.format() != 1 {
                return Err("HARNESS: no sample format".into());
            }
            for e in &ex.entries {
                if d.get(e.tag).is_none() {
                    d.set(e.tag, e.val.clone());
                }
            }
            m.ifds.push(d);
        }
        let far = s.bool();
        let lay = Layout::gen(s, &m, fl, far);
        let w = write(&m, fl, &lay);
        let mem = Mem(Shared::new(w.file.clone()).arc());
        let o = ok(&format!("opening the {} file", fl.name()), open_sync(&mem)?)?;
        ensure(o.ifds.len() == nimg, || format!("{} directories instead of {nimg}", o.ifds.len()))?;
        let dumps: Vec<_> = o
            .ifds
            .iter()
            .map(|i| dump(i).into_iter().filter(|x| x.0 != "tile_byte_counts").collect::<Vec<_>>())
            .collect();
        for (k, (ifd, im)) in o.ifds.iter().zip(&these).enumerate() {
            let counts: Vec<u64> = match m.ifds[k].get(tag::TILE_BYTE_COUNTS).unwrap() {
                Val::Short(v) => v.iter().map(|x| *x as u64).collect(),
                Val::Long(v) => v.iter().map(|x| *x as u64).collect(),
                Val::Long8(v) => v.clone(),
                _ => unreachable!(),
            };
            ensure(ifd.tile_byte_counts() == Some(&counts[..]), || {
                format!("{}: tile byte counts {:?}, stored {counts:?}", fl.name(), ifd.tile_byte_counts())
            })?;
            for y in 0..im.ny {
                for x in 0..im.nx {
                    let t = ok("fetch_tile", block_on("fetch_tile", ifd.fetch_tile(x, y, &mem))?)?;
                    let a = ok(&format!("{}: decoding tile ({x},{y})", fl.name()), decode(t)?)?;
                    check_array(&a, &im.spec, &im.px[y * im.nx + x])
                        .map_err(|e| format!("{} file, image {k}, tile ({x},{y}): {e}", fl.name()))?;
                    cx.extra += 1;
                }
            }
        }
        match &first {
            None => first = Some((dumps, fl.name())),
            Some((d0, name0)) => {
                for (k, (a, b)) in d0.iter().zip(&dumps).enumerate() {
                    // SampleFormat may be stored or defaulted; both read the same
                    if let Some(d) = diff_dumps(a, b) {
                        return Err(format!("directory {k} read differently from {name0} and {}: {d}", fl.name()));
                    }
                }
            }
        }
    }
    Ok(())
}
