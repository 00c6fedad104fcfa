//! Encoders: the inverse of what the library must do, written independently of it.
use std::io::Write;

use crate::engine::Src;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dt {
    U8,
    U16,
    U32,
    U64,
    I8,
    I16,
    I32,
    I64,
    F32,
    F64,
}

pub const DTS: [Dt; 10] =
    [Dt::U8, Dt::U16, Dt::U32, Dt::U64, Dt::I8, Dt::I16, Dt::I32, Dt::I64, Dt::F32, Dt::F64];

impl Dt {
    pub fn size(self) -> usize {
        match self {
            Dt::U8 | Dt::I8 => 1,
            Dt::U16 | Dt::I16 => 2,
            Dt::U32 | Dt::I32 | Dt::F32 => 4,
            _ => 8,
        }
    }
    pub fn bits(self) -> u16 {
        self.size() as u16 * 8
    }
    pub fn is_float(self) -> bool {
        matches!(self, Dt::F32 | Dt::F64)
    }
    /// SampleFormat code
    pub fn format(self) -> u16 {
        match self {
            Dt::U8 | Dt::U16 | Dt::U32 | Dt::U64 => 1,
            Dt::I8 | Dt::I16 | Dt::I32 | Dt::I64 => 2,
            _ => 3,
        }
    }
    pub fn api(self) -> async_tiff::DataType {
        use async_tiff::DataType as D;
        match self {
            Dt::U8 => D::UInt8,
            Dt::U16 => D::UInt16,
            Dt::U32 => D::UInt32,
            Dt::U64 => D::UInt64,
            Dt::I8 => D::Int8,
            Dt::I16 => D::Int16,
            Dt::I32 => D::Int32,
            Dt::I64 => D::Int64,
            Dt::F32 => D::Float32,
            Dt::F64 => D::Float64,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Codec {
    None,
    Deflate,
    OldDeflate,
    Lzw,
    Zstd,
    Lzma,
    /// inner compression 0 none, 1 deflate, 2 zstd
    Lerc(u8),
    WebP,
    Jp2k,
}

/// Codecs that store arbitrary bytes.
pub const BYTE_CODECS: [Codec; 6] =
    [Codec::None, Codec::Deflate, Codec::OldDeflate, Codec::Lzw, Codec::Zstd, Codec::Lzma];

impl Codec {
    pub fn code(self) -> u16 {
        match self {
            Codec::None => 1,
            Codec::Deflate => 8,
            Codec::OldDeflate => 32946,
            Codec::Lzw => 5,
            Codec::Zstd => 50000,
            Codec::Lzma => 34925,
            Codec::Lerc(_) => 34887,
            Codec::WebP => 50001,
            Codec::Jp2k => 34712,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Codec::None => "none",
            Codec::Deflate => "deflate",
            Codec::OldDeflate => "old-deflate",
            Codec::Lzw => "lzw",
            Codec::Zstd => "zstd",
            Codec::Lzma => "lzma",
            Codec::Lerc(0) => "lerc",
            Codec::Lerc(1) => "lerc+deflate",
            Codec::Lerc(_) => "lerc+zstd",
            Codec::WebP => "webp",
            Codec::Jp2k => "jpeg2000",
        }
    }
    pub fn is_byte_codec(self) -> bool {
        BYTE_CODECS.contains(&self)
    }
}

/// Shape and coding of one tile.
#[derive(Clone, Copy, Debug)]
pub struct Spec {
    pub w: usize,
    pub h: usize,
    pub spp: usize,
    pub dt: Dt,
    pub planar: bool,
    pub codec: Codec,
    /// 1, 2 or 3
    pub predictor: u16,
    pub big_endian: bool,
    /// encoder settings
    pub cfg: u64,
}

impl Spec {
    pub fn shape(&self) -> [usize; 3] {
        if self.planar {
            [self.spp, self.h, self.w]
        } else {
            [self.h, self.w, self.spp]
        }
    }
    pub fn pixel_bytes(&self) -> usize {
        self.w * self.h * self.spp * self.dt.size()
    }
    pub fn show(&self) -> String {
        format!(
            "{}x{} tile, {} x {:?}, {}, codec {}, predictor {}, {}, settings {:#x}",
            self.w,
            self.h,
            self.spp,
            self.dt,
            if self.planar { "planar" } else { "chunky" },
            self.codec.name(),
            self.predictor,
            if self.big_endian { "MM" } else { "II" },
            self.cfg
        )
    }
}

/// Sample bytes (little endian) for a data type, finite and without -0.0 if `plain`.
pub fn samples(seed: u64, n: usize, dt: Dt, plain: bool) -> Vec<u8> {
    let mut raw = crate::engine::bulk(seed, n * dt.size());
    if dt.is_float() && plain {
        match dt {
            Dt::F32 => raw.chunks_exact_mut(4).for_each(|c| {
                let v = u32::from_le_bytes(c.try_into().unwrap());
                let f = ((v as i32) >> (v % 24)) as f32 * if v & 64 != 0 { 0.125 } else { 1.0 };
                c.copy_from_slice(&(f + 0.0).to_le_bytes());
            }),
            _ => raw.chunks_exact_mut(8).for_each(|c| {
                let v = u64::from_le_bytes(c.try_into().unwrap());
                let f = ((v as i64) >> (v % 50)) as f64 * if v & 64 != 0 { 0.125 } else { 1.0 };
                c.copy_from_slice(&(f + 0.0).to_le_bytes());
            }),
        }
    }
    raw
}

fn swap_bytes(buf: &mut [u8], size: usize) {
    if size > 1 {
        buf.chunks_exact_mut(size).for_each(|c| c.reverse());
    }
}

/// Apply horizontal differencing to little-endian samples.
fn predict_h(buf: &mut [u8], w: usize, spp: usize, size: usize) {
    let row = w * spp * size;
    for r in buf.chunks_exact_mut(row) {
        for x in (1..w).rev() {
            for s in 0..spp {
                let i = (x * spp + s) * size;
                let p = ((x - 1) * spp + s) * size;
                let mut a = [0u8; 8];
                let mut b = [0u8; 8];
                a[..size].copy_from_slice(&r[i..i + size]);
                b[..size].copy_from_slice(&r[p..p + size]);
                let d = u64::from_le_bytes(a).wrapping_sub(u64::from_le_bytes(b));
                r[i..i + size].copy_from_slice(&d.to_le_bytes()[..size]);
            }
        }
    }
}

/// Floating-point predictor on little-endian samples: byte planes, most significant first, then
/// byte differences at distance `spp`.
fn predict_f(buf: &mut [u8], w: usize, spp: usize, size: usize) {
    let n = w * spp;
    for r in buf.chunks_exact_mut(n * size) {
        let src = r.to_vec();
        for i in 0..n {
            for b in 0..size {
                r[b * n + i] = src[i * size + (size - 1 - b)];
            }
        }
        for i in (spp..r.len()).rev() {
            r[i] = r[i].wrapping_sub(r[i - spp]);
        }
    }
}

pub fn compress(codec: Codec, cfg: u64, data: &[u8]) -> Vec<u8> {
    match codec {
        Codec::None => data.to_vec(),
        Codec::Deflate | Codec::OldDeflate => {
            let mut e = flate2::write::ZlibEncoder::new(
                vec![],
                flate2::Compression::new((cfg % 10) as u32),
            );
            if cfg & 0x100 != 0 && data.len() > 2 {
                // several deflate blocks
                let k = data.len() / 2;
                e.write_all(&data[..k]).unwrap();
                e.flush().unwrap();
                e.write_all(&data[k..]).unwrap();
            } else {
                e.write_all(data).unwrap();
            }
            e.finish().unwrap()
        }
        Codec::Lzw => weezl::encode::Encoder::with_tiff_size_switch(weezl::BitOrder::Msb, 8)
            .encode(data)
            .unwrap(),
        Codec::Zstd => {
            if cfg & 0x1c00 == 0x0400 && data.len() > 2 {
                // several frames, as written in pieces, perhaps with a skippable frame between
                let k = 1 + (cfg as usize >> 4) % (data.len() - 1);
                let mut v = compress(codec, cfg & !0x1c00, &data[..k]);
                if cfg & 0x10 != 0 {
                    v.extend_from_slice(&[0x50, 0x2a, 0x4d, 0x18, 3, 0, 0, 0, 1, 2, 3]);
                }
                v.extend(compress(codec, cfg & !0x1c00, &data[k..]));
                return v;
            }
            let level = [1, 3, -3, 5, 9][(cfg % 5) as usize];
            let level = if cfg & 0xf200 == 0x3200 && data.len() < 20_000 { 19 } else { level };
            let mut e = zstd::Encoder::new(vec![], level).unwrap();
            // keep the encoder's tables small
            let window = if data.len() > 100_000 { [16, 20, 22, 23, 24, 17, 21, 26][(cfg >> 5) as usize % 8] } else { 16 };
            e.window_log(window).unwrap();
            e.include_checksum(cfg & 0x100 != 0).unwrap();
            e.include_contentsize(cfg & 0x200 != 0).unwrap();
            if cfg & 0x200 != 0 {
                e.set_pledged_src_size(Some(data.len() as u64)).unwrap();
            }
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        Codec::Lzma => {
            let mut o = lzma_rust2::XzOptions::with_preset(if cfg & 0xf0 == 0 { 6 } else { (cfg % 2) as u32 });
            o.set_check_sum_type(
                [
                    lzma_rust2::CheckType::None,
                    lzma_rust2::CheckType::Crc32,
                    lzma_rust2::CheckType::Crc64,
                    lzma_rust2::CheckType::Sha256,
                ][((cfg >> 8) % 4) as usize],
            );
            o.lzma_options.dict_size = 1 << if data.len() > 100_000 { [16, 20, 22, 23][(cfg >> 5) as usize % 4] } else { 16 };
            if cfg & 0x1000 != 0 {
                o.set_block_size(std::num::NonZeroU64::new(4096));
            }
            let mut w = lzma_rust2::XzWriter::new(vec![], o).unwrap();
            w.write_all(data).unwrap();
            w.finish().unwrap()
        }
        _ => panic!("not a byte codec"),
    }
}

fn lerc_enc<T: lerc::LercDataType + Copy + PartialEq>(v: &[T], w: usize, h: usize, d: usize) -> Option<Vec<u8>> {
    let blob = lerc::encode(v, None, w, h, d, 1, 1, 0.0).ok().or_else(|| lerc::encode(v, None, w, h, d, 1, 0, 0.0).ok())?;
    let info = lerc::get_blob_info(&blob).ok()?;
    let (back, mask) = lerc::decode::<T>(
        &blob,
        info.width as usize,
        info.height as usize,
        info.depth as usize,
        info.bands as usize,
        info.masks as usize,
    )
    .ok()?;
    // not-a-number pixels are carried by the mask
    let same = back.iter().zip(v).enumerate().all(|(i, (a, b))| {
        a == b || b != b && mask.as_ref().is_some_and(|m| m[i / d] == 0)
    });
    if same && back.len() == v.len() {
        Some(blob)
    } else {
        None
    }
}

fn le<T, const N: usize>(b: &[u8], f: impl Fn([u8; N]) -> T) -> Vec<T> {
    b.chunks_exact(N).map(|c| f(c.try_into().unwrap())).collect()
}

/// Encode one block (all bands if chunky, one band if planar). None = the codec library itself
/// cannot represent this data losslessly (the case is discarded).
pub fn encode_block(sp: &Spec, px: &[u8], bands: usize) -> Option<Vec<u8>> {
    let size = sp.dt.size();
    assert_eq!(px.len(), sp.w * sp.h * bands * size);
    if sp.codec.is_byte_codec() {
        let mut b = px.to_vec();
        match sp.predictor {
            2 => predict_h(&mut b, sp.w, bands, size),
            3 => predict_f(&mut b, sp.w, bands, size),
            _ => {}
        }
        if sp.big_endian && sp.predictor != 3 {
            swap_bytes(&mut b, size);
        }
        return Some(compress(sp.codec, sp.cfg, &b));
    }
    match sp.codec {
        Codec::Lerc(inner) => {
            let (w, h) = (sp.w, sp.h);
            let blob = match sp.dt {
                Dt::U8 => lerc_enc::<u8>(px, w, h, bands),
                Dt::I8 => lerc_enc::<i8>(&le(px, i8::from_le_bytes), w, h, bands),
                Dt::U16 => lerc_enc::<u16>(&le(px, u16::from_le_bytes), w, h, bands),
                Dt::I16 => lerc_enc::<i16>(&le(px, i16::from_le_bytes), w, h, bands),
                Dt::U32 => lerc_enc::<u32>(&le(px, u32::from_le_bytes), w, h, bands),
                Dt::I32 => lerc_enc::<i32>(&le(px, i32::from_le_bytes), w, h, bands),
                Dt::F32 => lerc_enc::<f32>(&le(px, f32::from_le_bytes), w, h, bands),
                Dt::F64 => lerc_enc::<f64>(&le(px, f64::from_le_bytes), w, h, bands),
                _ => None,
            }?;
            Some(match inner {
                0 => blob,
                1 => compress(Codec::Deflate, sp.cfg, &blob),
                _ => compress(Codec::Zstd, sp.cfg, &blob),
            })
        }
        Codec::WebP => {
            let e = match bands {
                3 => webp::Encoder::from_rgb(px, sp.w as u32, sp.h as u32),
                4 => webp::Encoder::from_rgba(px, sp.w as u32, sp.h as u32),
                _ => return None,
            };
            let mut c = webp::WebPConfig::new().ok()?;
            c.lossless = 1;
            c.exact = 1;
            c.alpha_compression = 0;
            c.method = (sp.cfg % 3) as i32;
            c.quality = (sp.cfg % 101) as f32;
            Some(e.encode_advanced(&c).ok()?.to_vec())
        }
        Codec::Jp2k => jp2k_encode(sp, px, bands),
        _ => unreachable!(),
    }
}

/// Encode a tile: one part if chunky, one per band if planar. `px` is in the array's order.
pub fn encode_tile(sp: &Spec, px: &[u8]) -> Option<Vec<Vec<u8>>> {
    if sp.planar {
        let n = px.len() / sp.spp;
        px.chunks_exact(n).map(|b| encode_block(sp, b, 1)).collect()
    } else {
        Some(vec![encode_block(sp, px, sp.spp)?])
    }
}

// ---------- JPEG 2000 ----------

struct MemStream {
    data: Vec<u8>,
    pos: usize,
}

unsafe extern "C" fn st_write(
    buf: *mut std::os::raw::c_void,
    n: openjpeg_sys::OPJ_SIZE_T,
    u: *mut std::os::raw::c_void,
) -> openjpeg_sys::OPJ_SIZE_T {
    let s = &mut *(u as *mut MemStream);
    let n = n as usize;
    let end = s.pos + n;
    if s.data.len() < end {
        s.data.resize(end, 0);
    }
    std::ptr::copy_nonoverlapping(buf as *const u8, s.data.as_mut_ptr().add(s.pos), n);
    s.pos = end;
    n as _
}
unsafe extern "C" fn st_skip(
    n: openjpeg_sys::OPJ_OFF_T,
    u: *mut std::os::raw::c_void,
) -> openjpeg_sys::OPJ_OFF_T {
    let s = &mut *(u as *mut MemStream);
    s.pos = (s.pos as i64 + n) as usize;
    if s.data.len() < s.pos {
        s.data.resize(s.pos, 0);
    }
    n
}
unsafe extern "C" fn st_seek(n: openjpeg_sys::OPJ_OFF_T, u: *mut std::os::raw::c_void) -> openjpeg_sys::OPJ_BOOL {
    let s = &mut *(u as *mut MemStream);
    s.pos = n as usize;
    if s.data.len() < s.pos {
        s.data.resize(s.pos, 0);
    }
    1
}
unsafe extern "C" fn st_free(_: *mut std::os::raw::c_void) {}

fn jp2k_encode(sp: &Spec, px: &[u8], bands: usize) -> Option<Vec<u8>> {
    use openjpeg_sys::*;
    let size = sp.dt.size();
    if sp.dt.format() != 1 || size > 2 {
        return None;
    }
    let alpha = bands == 2 || bands == 4 && sp.cfg & 0x400 != 0;
    // two components are only understood with an alpha flag, which needs the JP2 container
    let jp2 = bands == 2 || alpha || sp.cfg & 0x100 != 0;
    unsafe {
        let mut parms: Vec<opj_image_cmptparm_t> = vec![std::mem::zeroed(); bands];
        for p in parms.iter_mut() {
            p.dx = 1;
            p.dy = 1;
            p.w = sp.w as u32;
            p.h = sp.h as u32;
            p.prec = sp.dt.bits() as u32;
            p.bpp = sp.dt.bits() as u32;
            p.sgnd = 0;
        }
        let space = if bands <= 2 { OPJ_COLOR_SPACE::OPJ_CLRSPC_GRAY } else { OPJ_COLOR_SPACE::OPJ_CLRSPC_SRGB };
        let img = opj_image_create(bands as u32, parms.as_mut_ptr(), space);
        if img.is_null() {
            return None;
        }
        (*img).x0 = 0;
        (*img).y0 = 0;
        (*img).x1 = sp.w as u32;
        (*img).y1 = sp.h as u32;
        for b in 0..bands {
            let c = &mut *(*img).comps.add(b);
            if alpha && b == bands - 1 {
                c.alpha = 1;
            }
            for i in 0..sp.w * sp.h {
                let o = (i * bands + b) * size;
                let v = if size == 1 { px[o] as i32 } else { u16::from_le_bytes([px[o], px[o + 1]]) as i32 };
                *c.data.add(i) = v;
            }
        }
        let mut prm: opj_cparameters_t = std::mem::zeroed();
        opj_set_default_encoder_parameters(&mut prm);
        prm.tcp_numlayers = 1;
        prm.tcp_rates[0] = 0.0;
        prm.cp_disto_alloc = 1;
        prm.irreversible = 0;
        prm.tcp_mct = if bands >= 3 && sp.cfg & 1 != 0 { 1 } else { 0 };
        let mut res = 1 + (sp.cfg >> 1) as i32 % 6;
        while res > 1 && (1usize << (res - 1)) > sp.w.min(sp.h) {
            res -= 1;
        }
        prm.numresolution = res;
        let codec = opj_create_compress(if jp2 { OPJ_CODEC_FORMAT::OPJ_CODEC_JP2 } else { OPJ_CODEC_FORMAT::OPJ_CODEC_J2K });
        let stream = opj_stream_create(1 << 16, 0);
        let mut mem = MemStream { data: vec![], pos: 0 };
        opj_stream_set_write_function(stream, Some(st_write));
        opj_stream_set_skip_function(stream, Some(st_skip));
        opj_stream_set_seek_function(stream, Some(st_seek));
        opj_stream_set_user_data(stream, &mut mem as *mut _ as *mut _, Some(st_free));
        let ok = opj_setup_encoder(codec, &mut prm, img) != 0
            && opj_start_compress(codec, img, stream) != 0
            && opj_encode(codec, stream) != 0
            && opj_end_compress(codec, stream) != 0;
        opj_stream_destroy(stream);
        opj_destroy_codec(codec);
        opj_image_destroy(img);
        if ok {
            Some(mem.data)
        } else {
            None
        }
    }
}

// ---------- generation ----------

pub struct SpecOpts {
    pub max_side: usize,
    pub max_spp: usize,
    pub byte_only: bool,
    pub max_bytes: usize,
}

impl Spec {
    pub fn gen(s: &mut Src, o: &SpecOpts) -> Spec {
        let codec = if o.byte_only || s.chance(2, 3) {
            *s.pick(&BYTE_CODECS)
        } else {
            match s.weighted(&[3, 2, 2]) {
                0 => Codec::Lerc(s.upto(2) as u8),
                1 => Codec::WebP,
                _ => Codec::Jp2k,
            }
        };
        let mut dt = *s.pick(&DTS);
        let mut spp = match s.upto(2) {
            0 => 1,
            1 => s.us(1, 4.min(o.max_spp)),
            _ => s.us(1, o.max_spp),
        };
        let mut planar = s.bool();
        let mut big_endian = s.bool();
        let mut predictor = 1;
        match codec {
            Codec::Lerc(_) => {
                if matches!(dt, Dt::U64 | Dt::I64) {
                    dt = Dt::F64;
                }
                // byte order of multi-byte LERC samples in MM files is ambiguous: not in the domain
                if dt.size() > 1 {
                    big_endian = false;
                }
            }
            Codec::WebP => {
                dt = Dt::U8;
                planar = false;
                spp = 3 + spp % 2;
            }
            Codec::Jp2k => {
                dt = if dt.size() % 2 == 0 { Dt::U16 } else { Dt::U8 };
                if planar {
                    spp = spp.min(4);
                } else {
                    spp = [1, 3, 4, 2][spp % 4];
                }
            }
            _ => {
                if s.chance(1, 2) {
                    predictor = if dt.is_float() && s.bool() { 3 } else { 2 };
                }
            }
        }
        let side = |s: &mut Src| match s.upto(3) {
            0 => s.us(1, 4),
            1 => *s.pick(&[8usize, 16, 32]),
            _ => s.us(1, o.max_side),
        };
        let mut w = side(s).min(o.max_side);
        let mut h = side(s).min(o.max_side);
        while w * h * spp * dt.size() > o.max_bytes {
            if w >= h {
                w = w.div_ceil(2);
            } else {
                h = h.div_ceil(2);
            }
            if w == 1 && h == 1 {
                break;
            }
        }
        let cfg = s.upto(0xffff);
        Spec { w, h, spp, dt, planar, codec, predictor, big_endian, cfg }
    }
}
