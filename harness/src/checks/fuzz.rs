//! Malformed input: C16 (metadata), C17 (tiles).
use std::sync::Arc;

use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::ImageFileDirectoryReader;
use async_tiff::TIFF;

use super::tags::gen_scalar;
use super::*;
use crate::io::*;
use crate::jpegenc;

// ---------------------------------------------------------------- mutation

fn interesting(s: &mut Src, len: u64) -> u64 {
    match s.weighted(&[3, 4, 3, 2, 2]) {
        0 => s.upto(20),
        1 => s.upto(len + 8),
        2 => s.ubits(64),
        3 => s.ubits(32),
        _ => s.ubits(16),
    }
}

/// Change some bytes. `hot` are positions of fields worth hitting.
fn mutate(s: &mut Src, v: &mut Vec<u8>, hot: &[(usize, usize)], big: bool) {
    for _ in 0..s.weighted(&[0, 5, 3, 1, 1]) {
        let len = v.len();
        match s.weighted(&[if hot.is_empty() { 0 } else { 10 }, 4, 2, 2, 1, 1]) {
            0 => {
                let (at, w) = *s.pick(hot);
                let x = interesting(s, len as u64);
                let b = if big { x.to_be_bytes()[8 - w..].to_vec() } else { x.to_le_bytes()[..w].to_vec() };
                if at + w <= v.len() {
                    v[at..at + w].copy_from_slice(&b);
                }
            }
            1 if len > 0 => {
                let at = s.us(0, len - 1);
                v[at] = s.ubits(8) as u8;
            }
            2 if len > 0 => {
                let at = s.us(0, len - 1);
                v[at] ^= 1 << s.upto(7);
            }
            3 => {
                let n = s.us(0, len);
                v.truncate(n);
            }
            4 if len > 0 => {
                let at = s.us(0, len - 1);
                let n = s.us(1, 16).min(len - at);
                v.drain(at..at + n);
            }
            5 => {
                let at = s.us(0, len);
                let sd = s.seed();
                let n = s.us(1, 16);
                let b = bulk(sd, n);
                v.splice(at..at, b);
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- C16

pub const C16: Check = Check {
    id: "C16",
    f: c16,
    quick: 3_000_000,
    thorough: 60_000_000,
    level: "exploration",
    rule: "valid files with mutated fields, directories of arbitrary entries, noise, and arbitrary tag values; non-trivial if at least one directory or tag entry was parsed or from_tags got past the required tags",
    assumptions: &[
        "files of up to about 4 KB; no request count above 20000 + (file size)^2 and no single allocation above 8 MiB + 256 x file size",
        "a case that does not come back at all stops the check as inconclusive (error exit)",
    ],
    exhaustive: false,
    alloc_limit: 64 << 20,
};

const KNOWN: [u16; 46] = [
    254, 256, 257, 258, 259, 262, 269, 270, 273, 274, 277, 278, 279, 280, 281, 282, 283, 284, 296,
    305, 306, 315, 316, 317, 320, 322, 323, 324, 325, 338, 339, 347, 33432, 33550, 33922, 34264,
    34735, 34736, 34737, 42112, 42113, 50674, 330, 255, 292, 65000,
];

/// A tag with a value of a kind its accessor takes.
fn good_value(s: &mut Src) -> (u16, Val) {
    match s.upto(7) {
        0 => (*s.pick(&[269u16, 270, 305, 306, 315, 316, 33432, 42112, 42113]), {
            let n = s.us(1, 20);
            Val::gen(s, 2, n)
        }),
        1 => (*s.pick(&[282u16, 283]), Val::gen(s, 5, 1)),
        2 => (*s.pick(&[33550u16, 33922, 34264]), {
            let n = s.us(2, 16);
            Val::gen(s, 12, n)
        }),
        3 => (*s.pick(&[254u16, 274, 278]), Val::Short(vec![s.upto(9) as u16])),
        4 => (*s.pick(&[280u16, 281, 320]), {
            let n = s.us(2, 12);
            Val::gen(s, 3, n)
        }),
        5 => (*s.pick(&[284u16, 296, 317]), Val::Short(vec![s.int(1, 3) as u16])),
        6 => (*s.pick(&[273u16, 279, 324, 325]), {
            let n = s.us(1, 8);
            let ty = *s.pick(&[4u16, 3, 16]);
            Val::gen(s, ty, n)
        }),
        _ => (*s.pick(&[347u16, 65000, 330]), {
            let n = s.us(1, 30);
            Val::gen(s, 7, n)
        }),
    }
}

/// A directory that would be valid but for what the caller does to it.
fn rich_ifd(s: &mut Src, i: u32) -> Ifd {
    let mut d = minimal_ifd(i + 20, 17);
    if s.bool() {
        d.set(tag::TILE_WIDTH, Val::Long(vec![16]));
        d.set(tag::TILE_LENGTH, Val::Long(vec![16]));
        d.set(tag::TILE_OFFSETS, Val::Long(vec![8, 30, 50, 60]));
        d.set(tag::TILE_BYTE_COUNTS, Val::Long(vec![8, 9, 10, 11]));
    }
    for _ in 0..s.us(0, 6) {
        if s.chance(12, 13) {
            let (t, v) = good_value(s);
            d.set(t, v);
            continue;
        }
        let t = *s.pick(&KNOWN);
        let n = s.us(0, 12);
        let ty = *s.pick(&TYPES);
        d.set(t, Val::gen(s, ty, n));
    }
    if s.chance(1, 6) {
        let n = s.us(0, 5);
        let mut v = vec![1, 1, 0, n as u16];
        for _ in 0..n {
            v.extend([
                *s.pick(&[1024u16, 1025, 1026, 2048, 2049, 2054, 2057, 3072, 3073, 4096, 9999]),
                *s.pick(&[0u16, 34736, 34737, 77]),
                s.ubits(16) as u16 % 300,
                s.ubits(16) as u16,
            ]);
        }
        if s.bool() {
            let n = s.us(0, v.len());
            v.truncate(n);
        }
        d.set(tag::GEO_KEYS, Val::Short(v));
        if s.bool() {
            let n = s.us(0, 6);
            d.set(tag::GEO_DOUBLES, Val::gen(s, 12, n));
        }
        if s.bool() {
            let n = s.us(0, 20);
            d.set(tag::GEO_ASCII, Val::gen(s, 2, n));
        }
    }
    d
}

fn hot_fields(w: &Written, m: &Model) -> Vec<(usize, usize)> {
    let f = w.flavour;
    let mut h = vec![(2, 2)];
    if f.bigtiff {
        h.extend([(4, 2), (6, 2), (8, 8)]);
    } else {
        h.push((4, 4));
    }
    let (cl, el, il) = (f.count_len() as usize, f.entry_len() as usize, f.inline_len() as usize);
    for (i, d) in m.ifds.iter().enumerate() {
        let o = w.ifd_offsets[i] as usize;
        h.push((o, cl));
        for j in 0..d.entries.len() {
            let e = o + cl + j * el;
            h.push((e, 2));
            h.push((e + 2, 2));
            h.push((e + 4, il));
            h.push((e + 4 + il, il));
        }
        h.push((o + cl + d.entries.len() * el, il));
    }
    h
}

/// A header and raw entries with any field values.
fn raw_file(s: &mut Src, f: Flavour) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    let hdr = f.header_len();
    let ndir = s.us(1, 3);
    v.extend(if f.big_endian { b"MM" } else { b"II" });
    if f.bigtiff {
        v.extend(f.u16(43));
        v.extend(f.u16(8));
        v.extend(f.u16(0));
        v.extend(f.u64(hdr));
    } else {
        v.extend(f.u16(42));
        v.extend(f.u32(hdr as u32));
    }
    for d in 0..ndir {
        let n = s.us(0, 8);
        let claimed = if s.chance(1, 8) { interesting(s, 400) } else { n as u64 };
        if f.bigtiff {
            v.extend(f.u64(claimed));
        } else {
            v.extend(f.u16(claimed as u16));
        }
        for k in 0..n {
            // the first entries are the required ones more often than not
            let t = if k < 4 && s.chance(3, 4) {
                [256u16, 257, 258, 262][k]
            } else if s.chance(4, 5) {
                *s.pick(&KNOWN)
            } else {
                s.ubits(16) as u16
            };
            let ty = match s.weighted(&[6, 3, 1]) {
                0 => *s.pick(&[3u16, 4, 16, 1, 2]),
                1 => s.upto(20) as u16,
                _ => s.ubits(16) as u16,
            };
            let count = match s.weighted(&[5, 3, 2, 1]) {
                0 => 1,
                1 => s.upto(12),
                2 => s.upto(600),
                _ => interesting(s, 400),
            };
            let val = interesting(s, 400);
            v.extend(f.u16(t));
            v.extend(f.u16(ty));
            if f.bigtiff {
                v.extend(f.u64(count));
                v.extend(f.u64(val));
            } else {
                v.extend(f.u32(count as u32));
                // short values sit left-justified in the field
                if ty == 3 && count <= 2 {
                    v.extend(f.u16(val as u16));
                    v.extend(f.u16((val >> 16) as u16));
                } else {
                    v.extend(f.u32(val as u32));
                }
            }
        }
        let here = v.len() as u64 + f.inline_len();
        let next = if d + 1 < ndir && s.chance(4, 5) {
            here
        } else if s.bool() {
            0
        } else {
            interesting(s, here)
        };
        if f.bigtiff {
            v.extend(f.u64(next));
        } else {
            v.extend(f.u32(next as u32));
        }
    }
    let sd = s.seed();
    let n = s.us(0, 300);
    v.extend(bulk(sd, n));
    v
}

fn poke(s: &mut Src, ifd: &ImageFileDirectory) -> R {
    sut("accessors", || {
        dump_full(ifd);
        ifd.geo_key_directory().map(|g| (g.epsg_code(), format!("{g:?}")));
    })?;
    for _ in 0..3 {
        let (x, y) = (s.ubits(64) as usize % 70_000, s.ubits(64) as usize % 5);
        let (x2, y2) = if s.bool() { (usize::MAX, usize::MAX) } else { (0, 0) };
        sut("tile ranges", || {
            ifd.tile_byte_range(x, y);
            ifd.tile_byte_range(x2, y2);
            ifd.tiles_byte_ranges(&[(x, y), (x2, y2)]);
            ifd.tile_count()
        })?;
    }
    Ok(())
}

fn c16(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 5) {
        return c16_tags(s, cx);
    }
    let f = Flavour::gen(s);
    let data: Vec<u8> = match s.weighted(&[6, 5, 1]) {
        0 => {
            let mut m = Model::default();
            for i in 0..s.us(1, 3) {
                let d = rich_ifd(s, i as u32);
                m.ifds.push(d);
            }
            let lay = Layout::gen(s, &m, f, false);
            let w = write(&m, f, &lay);
            let mut v = w.file.to_dense().to_vec();
            let hot = hot_fields(&w, &m);
            if s.chance(1, 8) && m.ifds.len() > 1 {
                // a pointer back into the chain
                let i = s.us(0, m.ifds.len() - 1);
                let j = s.us(0, i);
                v = super::meta::patch_next(&w, i, w.ifd_offsets[j]).to_dense().to_vec();
                cx.label("loop");
            } else {
                mutate(s, &mut v, &hot, f.big_endian);
            }
            cx.label("mutated file");
            v
        }
        1 => {
            let mut v = raw_file(s, f);
            if s.chance(1, 4) {
                mutate(s, &mut v, &[], f.big_endian);
            }
            cx.label("arbitrary entries");
            v
        }
        _ => {
            let sd = s.seed();
            let n = s.us(0, 200);
            let mut v = bulk(sd, n);
            if s.chance(3, 4) && v.len() >= 8 {
                let h = if f.bigtiff { 43 } else { 42 };
                v[0..2].copy_from_slice(if f.big_endian { b"MM" } else { b"II" });
                v[2..4].copy_from_slice(&f.u16(h));
            }
            cx.label("noise");
            v
        }
    };
    let len = data.len();
    cx.note(|| {
        let hex: String = data.iter().take(400).map(|b| format!("{b:02x}")).collect();
        format!("{len} bytes: {hex}{}", if len > 400 { "…" } else { "" })
    });
    let file = Arc::new(SparseFile::dense(data.into()));
    let budget = 20_000 + (len * len) as u64;
    let max = (8 << 20) + 256 * len;
    let eof = *s.pick(&[Eof::Cut, Eof::ErrorAtStart, Eof::Strict]);
    let mk = || Shared::new(file.clone()).eof(eof).budget(budget).arc();
    let done = |sh: &Shared, what: &str| -> R {
        ensure(!sh.exhausted(), || {
            format!("{what}: more than {budget} reads of a {len} byte file: does not terminate")
        })?;
        let a = max_alloc();
        ensure(a <= max, || format!("{what}: asked for {a} bytes of memory at once for a {len} byte file"))
    };
    // directly
    let sh = mk();
    let r = open_sync(&Mem(sh.clone()));
    done(&sh, "opening")?;
    let direct = r?;
    cx.label(if direct.is_ok() { "accepted" } else { "rejected" });
    if let Ok(o) = &direct {
        cx.nontrivial();
        for i in &o.ifds {
            poke(s, i)?;
        }
        let e = o.endianness;
        let ifds = o.ifds.clone();
        let t = sut("TIFF::new", || TIFF::new(ifds, e))?;
        let has_offsets = o.ifds.iter().any(|i| {
            i.tile_offsets().map(|t| t.iter().any(|x| *x != 0)).unwrap_or(false)
                || i.strip_offsets().map(|t| t.iter().any(|x| *x != 0)).unwrap_or(false)
        });
        if has_offsets {
            sut("header_byte_size", || t.header_byte_size())?;
        }
    }
    // through the cache
    let sh = mk();
    let cache = ReadaheadMetadataCache::new(MemMeta(sh.clone()))
        .with_initial_size(*s.pick(&[32 * 1024u64, 1, 16, 200]))
        .with_multiplier(*s.pick(&[2.0, 1.0, 1.3]));
    let r = open_sync(&cache);
    done(&sh, "opening through the cache")?;
    r?;
    // one directory at a time, going on after errors
    let sh = mk();
    let m = Mem(sh.clone());
    let r = block_on("try_open", TiffMetadataReader::try_open(&m))?;
    if let Ok(mut r) = r {
        let mut errs = 0;
        let mut n = 0u64;
        loop {
            let _ = sut("next_ifd_offset", || (r.has_next_ifd(), r.next_ifd_offset()))?;
            match block_on("read_next_ifd", r.read_next_ifd(&m))? {
                Ok(None) => break,
                Ok(Some(_)) => n += 1,
                Err(_) => {
                    errs += 1;
                    if errs > 2 {
                        break;
                    }
                }
            }
            if n > len as u64 {
                return Err(format!("more than {n} directories read from a {len} byte file"));
            }
            if sh.exhausted() {
                break;
            }
        }
        done(&sh, "reading directories one by one")?;
    }
    // a directory anywhere
    let sh = mk();
    let m = Mem(sh.clone());
    let at = interesting(s, len as u64);
    let e = endian(s.bool());
    let big = s.bool();
    let r = block_on("opening a directory", ImageFileDirectoryReader::open(&m, at, big, e))?;
    if let Ok(r) = r {
        // index 0 exists unless the count is zero
        let count = {
            let b = file.read(at..at.saturating_add(if big { 8 } else { 2 }));
            let mut a = [0u8; 8];
            if e == Endianness::BigEndian {
                a[8 - b.len()..].copy_from_slice(&b);
                u64::from_be_bytes(a)
            } else {
                a[..b.len()].copy_from_slice(&b);
                u64::from_le_bytes(a)
            }
        };
        if count > 0 {
            cx.nontrivial();
            let k = if s.bool() { count - 1 } else { s.upto(count - 1) };
            let _ = block_on("reading an entry", r.read_tag(&m, k))?;
            if let Ok(i) = block_on("reading a directory", r.read(&m))? {
                poke(s, &i)?;
            }
        }
        let _ = block_on("finishing a directory", r.finish(&m))?;
        done(&sh, "reading a directory at an arbitrary offset")?;
    }
    Ok(())
}

fn gen_value(s: &mut Src, depth: u32) -> TagValue {
    match s.weighted(&[5, 5, if depth < 2 { 1 } else { 0 }]) {
        0 => {
            let k = s.upto(16);
            gen_scalar(s, k)
        }
        1 => {
            let k = s.upto(16);
            let n = s.us(0, 6);
            TagValue::List((0..n).map(|_| gen_scalar(s, k)).collect())
        }
        _ => {
            let n = s.us(0, 3);
            TagValue::List((0..n).map(|_| gen_value(s, depth + 1)).collect())
        }
    }
}

fn c16_tags(s: &mut Src, cx: &mut Cx) -> R {
    cx.label("arbitrary tag values");
    let d = rich_ifd(s, 3);
    let mut m = tag_map(&d, &[]);
    for _ in 0..s.us(0, 4) {
        let t = *s.pick(&KNOWN);
        if s.chance(1, 4) {
            m.remove(&Tag::from_u16_exhaustive(t));
        } else {
            let v = gen_value(s, 0);
            m.insert(Tag::from_u16_exhaustive(t), v);
        }
    }
    cx.note(|| cut(&format!("{m:?}")));
    let e = endian(s.bool());
    let r = sut("from_tags", || ImageFileDirectory::from_tags(m, e))?;
    if let Ok(i) = r {
        cx.nontrivial();
        poke(s, &i)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

pub const C17: Check = Check {
    id: "C17",
    f: c17,
    quick: 1_000_000,
    thorough: 20_000_000,
    level: "exploration",
    rule: "valid, mutated, foreign or random payloads under arbitrary directory parameters; non-trivial if the directory was accepted and a registered decoder was given the payload",
    assumptions: &[
        "image sizes that an embedded JPEG / JPEG 2000 / WebP / LERC header declares are at most 4 Mpx (larger ones allocate what they declare, inside the codec libraries)",
        "payloads of up to about 8 KB",
        "a case that does not come back at all stops the check as inconclusive (error exit)",
    ],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

const MAX_PX: u64 = 4 << 20;

/// Could this payload make a codec library allocate for a huge declared image?
fn too_big(code: u16, tables: &[u8], p: &[u8], lerc: Option<&[u32]>) -> bool {
    let be16 = |b: &[u8]| u16::from_be_bytes([b[0], b[1]]) as u64;
    let be32 = |b: &[u8]| u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as u64;
    match code {
        7 => {
            let mut all = tables.to_vec();
            all.extend_from_slice(p);
            // any frame header anywhere, also across the seam
            all.windows(9).any(|w| w[0] == 0xff && (0xc0..=0xcf).contains(&w[1]) && be16(&w[5..]) * be16(&w[7..]) > MAX_PX)
                || p.windows(9).any(|w| w[0] == 0xff && (0xc0..=0xcf).contains(&w[1]) && be16(&w[5..]) * be16(&w[7..]) > MAX_PX)
        }
        34712 => p.windows(42).any(|w| {
            if w[0] != 0xff || w[1] != 0x51 {
                return false;
            }
            let (x, y, xo, yo) = (be32(&w[6..]), be32(&w[10..]), be32(&w[14..]), be32(&w[18..]));
            let (tw, th) = (be32(&w[22..]), be32(&w[26..]));
            let c = be16(&w[38..]).max(1);
            let (sx, sy) = (x.saturating_sub(xo), y.saturating_sub(yo));
            let tiles = if tw == 0 || th == 0 { 0 } else { x.div_ceil(tw).saturating_mul(y.div_ceil(th)) };
            sx.saturating_mul(sy).saturating_mul(c) > MAX_PX || tiles > 4096
        }),
        50001 => {
            let (mut w, mut h) = (0i32, 0i32);
            let ok = unsafe { libwebp_sys::WebPGetInfo(p.as_ptr(), p.len(), &mut w, &mut h) };
            ok != 0 && w as u64 * h as u64 > MAX_PX
        }
        34887 => {
            use std::io::Read;
            let mut blob = p.to_vec();
            match lerc.and_then(|l| l.get(1).copied()) {
                Some(1) => {
                    let mut o = vec![];
                    let _ = flate2::bufread::ZlibDecoder::new(p).read_to_end(&mut o);
                    blob = o;
                }
                Some(2) => {
                    let mut o = vec![];
                    if let Ok(mut d) = zstd::Decoder::new(p) {
                        let _ = d.read_to_end(&mut o);
                    }
                    blob = o;
                }
                _ => {}
            }
            match lerc::get_blob_info(&blob) {
                Ok(i) => {
                    (i.width as u64).saturating_mul(i.height as u64).saturating_mul(i.depth as u64).saturating_mul(i.bands.max(1) as u64) > MAX_PX
                }
                Err(_) => false,
            }
        }
        _ => false,
    }
}

pub fn small_jpeg(s: &mut Src, comps: usize) -> (jpegenc::Jpeg, jpegenc::Encoded) {
    let (w, h) = (s.us(1, 24), s.us(1, 24));
    let j = jpegenc::Jpeg {
        w,
        h,
        comps: (0..comps)
            .map(|c| jpegenc::Comp { hs: 1, vs: 1, q: c.min(1), huff: c.min(1), plane: bulk(s.seed(), w * h) })
            .collect(),
        qt: vec![[3; 64], [5; 64]],
        restart: if s.bool() { s.upto(4) as u16 } else { 0 },
        ids: (1..=comps as u8).collect(),
        app0: s.bool(),
    };
    let e = j.encode();
    (j, e)
}

fn c17(s: &mut Src, cx: &mut Cx) -> R {
    // a consistent tile first
    let jpeg = s.chance(1, 5);
    let mut tables: Vec<u8> = vec![];
    let (mut ifd, mut parts, mut code): (Ifd, Vec<Vec<u8>>, u16);
    if jpeg {
        let comps = *s.pick(&[1usize, 3, 4, 2]);
        let (j, e) = small_jpeg(s, comps);
        let in_tag: Vec<bool> = e.tables.iter().map(|_| s.bool()).collect();
        let (t, p) = e.split(&in_tag);
        tables = t;
        ifd = spec_ifd(&Spec {
            w: j.w, h: j.h, spp: comps, dt: Dt::U8, planar: false, codec: Codec::None, predictor: 1, big_endian: false, cfg: 0,
        });
        ifd.set(tag::COMPRESSION, Val::Short(vec![7]));
        let ph = *s.pick(&[1u16, 2, 6, 5, 0, 3, 4, 8]);
        ifd.set(tag::PHOTOMETRIC, Val::Short(vec![ph]));
        parts = vec![p];
        code = 7;
    } else {
        let sp = Spec::gen(s, &SpecOpts { max_side: 24, max_spp: 5, byte_only: false, max_bytes: 4000 });
        let sd = s.seed();
        let px = samples(sd, sp.w * sp.h * sp.spp, sp.dt, matches!(sp.codec, Codec::Lerc(_)));
        let Some(p) = encode_tile(&sp, &px) else { return Ok(()) };
        ifd = spec_ifd(&sp);
        parts = p;
        code = sp.codec.code();
    }
    let big = s.bool();
    let mut lerc: Option<Vec<u32>> = match ifd.get(tag::LERC_PARAMS) {
        Some(Val::Long(v)) => Some(v.clone()),
        _ => None,
    };
    // damage the payload
    match s.weighted(&[3, 6, 1, 1]) {
        0 => {}
        1 => {
            let k = s.us(0, parts.len() - 1);
            // headers are at the front
            let hot: Vec<(usize, usize)> = if s.bool() {
                (0..parts[k].len().saturating_sub(4).min(100)).map(|i| (i, 1 + i % 4)).map(|(i, w)| (i, if w == 3 { 4 } else { w })).collect()
            } else {
                vec![]
            };
            let be = s.bool();
            mutate(s, &mut parts[k], &hot, be);
            cx.label("mutated payload");
        }
        2 => {
            let k = s.us(0, parts.len() - 1);
            let sd = s.seed();
            let n = s.us(0, 300);
            parts[k] = bulk(sd, n);
            cx.label("random payload");
        }
        _ => {
            if s.bool() {
                parts.pop();
            } else {
                parts.push(vec![1, 2, 3]);
            }
            cx.label("other number of parts");
        }
    }
    // damage the directory
    for _ in 0..s.weighted(&[4, 4, 2, 2]) {
        match s.upto(11) {
            11 => {
                // dimensions whose product only fits a machine word modulo its size
                let a = s.int(16, 31) as u32;
                let b = s.int(33u64.saturating_sub(a as u64).max(17), 31) as u32;
                let c = 64u32.saturating_sub(a + b).min(15);
                ifd.set(tag::TILE_WIDTH, Val::Long(vec![1 << a]));
                ifd.set(tag::TILE_LENGTH, Val::Long(vec![1 << b]));
                ifd.set(tag::SPP, Val::Short(vec![1 << c]));
                if s.bool() {
                    code = *s.pick(&[1u16, 8, 50000]);
                    ifd.set(tag::COMPRESSION, Val::Short(vec![code]));
                    ifd.set(tag::PREDICTOR, Val::Short(vec![1]));
                    ifd.set(tag::PLANAR, Val::Short(vec![1]));
                    let n = s.us(0, 1) * 8;
                    let k = match code {
                        1 => Codec::None,
                        8 => Codec::Deflate,
                        _ => Codec::Zstd,
                    };
                    parts = vec![compress(k, 0, &vec![7; n])];
                }
                cx.label("overflowing tile size");
            }
            0 => {
                code = if s.bool() {
                    *s.pick(&[1u16, 5, 7, 8, 34712, 34887, 34925, 50000, 50001, 32946])
                } else {
                    s.ubits(16) as u16
                };
                ifd.set(tag::COMPRESSION, Val::Short(vec![code]));
                cx.label("other codec");
            }
            1 => {
                let v = match s.upto(2) {
                    0 => s.upto(40) as u32,
                    1 => s.ubits(32) as u32,
                    _ => *s.pick(&[0u32, 65536, u32::MAX]),
                };
                let t = *s.pick(&[tag::TILE_WIDTH, tag::TILE_LENGTH]);
                ifd.set(t, Val::Long(vec![v]));
                cx.label("other tile size");
            }
            2 => {
                let n = s.us(0, 5);
                let same = s.bool();
                let b0 = *s.pick(&[1u16, 2, 4, 8, 12, 16, 24, 32, 64, 0, 7, 65535]);
                let v: Vec<u16> = (0..n)
                    .map(|_| if same { b0 } else { *s.pick(&[8u16, 16, 1, 32, 64, 12, 0]) })
                    .collect();
                ifd.set(tag::BITS, Val::Short(v));
                cx.label("other bit depth");
            }
            3 => {
                let v = *s.pick(&[0u16, 1, 2, 3, 4, 5, 255, 65535]);
                ifd.set(tag::SPP, Val::Short(vec![v]));
                cx.label("other band count");
            }
            4 => {
                let v = s.int(0, 4) as u16;
                ifd.set(tag::PREDICTOR, Val::Short(vec![v]));
                cx.label("other predictor");
            }
            5 => {
                let v = s.int(1, 3) as u16;
                ifd.set(tag::PLANAR, Val::Short(vec![v]));
                cx.label("other layout");
            }
            6 => {
                let n = s.us(0, 4);
                let v: Vec<u16> = (0..n).map(|_| s.int(1, 4) as u16).collect();
                ifd.set(tag::SAMPLE_FORMAT, Val::Short(v));
                cx.label("other sample format");
            }
            7 => {
                let v = *s.pick(&[0u16, 1, 2, 3, 4, 5, 6, 8, 9, 32803, 34892]);
                ifd.set(tag::PHOTOMETRIC, Val::Short(vec![v]));
            }
            8 => {
                let n = s.us(0, 4);
                let v: Vec<u32> = (0..n).map(|_| s.upto(4) as u32).collect();
                lerc = Some(v.clone());
                ifd.set(tag::LERC_PARAMS, Val::Long(v));
                cx.label("other LERC parameters");
            }
            9 => {
                if s.bool() {
                    mutate(s, &mut tables, &[], true);
                } else {
                    let sd = s.seed();
                    let n = s.us(0, 20);
                    tables = bulk(sd, n);
                }
                cx.label("other JPEG tables");
            }
            _ => {
                let v = s.ubits(32) as u32;
                let t = *s.pick(&[tag::WIDTH, tag::LENGTH]);
                ifd.set(t, Val::Long(vec![v]));
            }
        }
    }
    let mut tabs: &[u8] = &[];
    if !tables.is_empty() || (jpeg && s.chance(1, 8)) {
        ifd.set(tag::JPEG_TABLES, Val::Undef(tables.clone()));
        tabs = &tables[..tables.len().saturating_sub(2)];
    }
    if parts.iter().any(|p| too_big(code, tabs, p, lerc.as_deref()) || (p.len() >= 2 && too_big(code, tabs, &p[2..], lerc.as_deref()))) {
        cx.label("skipped: declared size above the bound");
        return Ok(());
    }
    let parts: Vec<Bytes> = parts.into_iter().map(Bytes::from).collect();
    cx.note(|| {
        let hex: Vec<String> = parts
            .iter()
            .map(|p| p.iter().take(200).map(|b| format!("{b:02x}")).collect::<String>() + if p.len() > 200 { "…" } else { "" })
            .collect();
        format!("directory {}; parts {hex:?}; MM {big}", cut(&format!("{:?}", ifd.entries)))
    });
    let one = one_tile(ifd, &parts);
    let tags = one.tags.clone();
    let d = match sut("from_tags", || ImageFileDirectory::from_tags(tags, endian(big)))? {
        Ok(d) => d,
        Err(_) => {
            cx.label("directory rejected");
            return Ok(());
        }
    };
    let r = one.reader();
    let (x, y) = if s.chance(1, 10) { (s.us(0, 3), s.us(0, 3)) } else { (0, 0) };
    let tile = if s.chance(1, 4) {
        block_on("fetch_tiles", d.fetch_tiles(&[(x, y)], &r))?.map(|mut v| v.pop())
    } else {
        block_on("fetch_tile", d.fetch_tile(x, y, &r))?.map(Some)
    };
    let tile = match tile {
        Ok(Some(t)) => t,
        Ok(None) => return Err("fetch_tiles of one tile returned none".into()),
        Err(_) => {
            cx.label("fetch refused");
            return Ok(());
        }
    };
    cx.nontrivial();
    match decode(tile)? {
        Err(_) => {
            cx.label("decode refused");
        }
        Ok(a) => {
            cx.label("decoded");
            let (w, h, n) = (
                d.tile_width().unwrap_or(0) as usize,
                d.tile_height().unwrap_or(0) as usize,
                d.samples_per_pixel() as usize,
            );
            let want = match d.planar_configuration().to_u16() {
                1 => [h, w, n],
                _ => [n, h, w],
            };
            ensure(a.shape() == want, || format!("shape {:?}, tags say {want:?}", a.shape()))?;
            let count = w.saturating_mul(h).saturating_mul(n);
            match a.data_type() {
                // untyped arrays hold the decoded bytes as they are
                None => {
                    ensure(matches!(a.data(), TypedArray::UInt8(_)), || "untyped array that does not hold bytes".into())?;
                    ensure(a.data().len() == count, || {
                        format!("{} elements, shape {want:?} needs {count}", a.data().len())
                    })?;
                }
                Some(dt) => {
                    ensure(typed_name(a.data()) == format!("{dt:?}"), || {
                        format!("array of {} described as {dt:?}", typed_name(a.data()))
                    })?;
                    ensure(a.data().len() == count, || {
                        format!("{} elements, shape {want:?} needs {count}", a.data().len())
                    })?;
                    let (bits, fmt) = (d.bits_per_sample().to_vec(), d.sample_format().to_vec());
                    let b0 = bits[0];
                    ensure(bits.iter().all(|b| *b == b0) && fmt.iter().all(|f| *f == fmt[0]), || {
                        format!("typed as {dt:?} although bands differ: {bits:?} {fmt:?}")
                    })?;
                    let f0 = fmt.first().map(|f| f.to_u16()).unwrap_or(1);
                    let name = match (f0, b0) {
                        (1, 1) => "Bool",
                        (1, 8) => "UInt8",
                        (1, 16) => "UInt16",
                        (1, 32) => "UInt32",
                        (1, 64) => "UInt64",
                        (2, 8) => "Int8",
                        (2, 16) => "Int16",
                        (2, 32) => "Int32",
                        (2, 64) => "Int64",
                        (3, 32) => "Float32",
                        (3, 64) => "Float64",
                        _ => "none",
                    };
                    ensure(name == format!("{dt:?}"), || format!("typed {dt:?}, tags say format {f0}, {b0} bits"))?;
                }
            }
        }
    }
    Ok(())
}
