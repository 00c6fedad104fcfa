//! The checks, one per property.
mod cache;
mod conc;
mod faults;
mod fuzz;
mod jpeg;
mod meta;
mod pixels;
#[cfg(feature = "py")]
mod python;
mod sources;
mod tags;
mod tiles;

use std::collections::HashMap;

use async_tiff::decoder::DecoderRegistry;
use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::metadata::{MetadataFetch, TiffMetadataReader};
use async_tiff::reader::Endianness;
use async_tiff::tags::Tag;
use async_tiff::{Array, CompressedBytes, ImageFileDirectory, TagValue, Tile, TypedArray};
use bytes::Bytes;

use crate::codec::*;
use crate::engine::*;
use crate::sched::block_on;
use crate::tiffw::*;

pub const ALL: &[Check] = &[
    meta::C01, meta::C02, meta::C03, meta::C04, tiles::C05, tiles::C06, pixels::C07, pixels::C08,
    pixels::C09, pixels::C10, pixels::C11, cache::C12, cache::C13, sources::C14, faults::C15,
    fuzz::C16, fuzz::C17, tags::C18, tags::C19, tiles::C20, tags::C21, tiles::C22, jpeg::C23,
    conc::C24,
    #[cfg(feature = "py")]
    python::C25,
];

pub const NO_LIMIT: usize = usize::MAX;

pub fn ok<T>(what: &str, r: AsyncTiffResult<T>) -> Result<T, String> {
    r.map_err(|e| format!("{what} failed: {e}"))
}

pub fn ensure(c: bool, m: impl FnOnce() -> String) -> R {
    if c {
        Ok(())
    } else {
        Err(m())
    }
}

#[derive(Debug)]
pub struct Opened {
    pub bigtiff: bool,
    pub endianness: Endianness,
    pub ifds: Vec<ImageFileDirectory>,
}

pub async fn open_all<F: MetadataFetch>(f: &F) -> AsyncTiffResult<Opened> {
    let mut r = TiffMetadataReader::try_open(f).await?;
    let ifds = r.read_all_ifds(f).await?;
    Ok(Opened { bigtiff: r.bigtiff(), endianness: r.endianness(), ifds })
}

/// Open and read everything; panics are failures.
pub fn open_sync<F: MetadataFetch>(f: &F) -> Result<AsyncTiffResult<Opened>, String> {
    block_on("opening", open_all(f))
}

pub fn tag_map(ifd: &Ifd, blob_offsets: &[u64]) -> HashMap<Tag, TagValue> {
    ifd.entries
        .iter()
        .map(|e| {
            let v = match &e.val {
                Val::Offsets(t, v) => {
                    let o: Vec<u64> =
                        v.iter().map(|b| b.map(|i| blob_offsets[i]).unwrap_or(0)).collect();
                    match type_size(*t) {
                        2 => Val::Short(o.iter().map(|x| *x as u16).collect()),
                        4 => Val::Long(o.iter().map(|x| *x as u32).collect()),
                        _ => Val::Long8(o),
                    }
                    .expect()
                }
                v => v.expect(),
            };
            (Tag::from_u16_exhaustive(e.tag), v)
        })
        .collect()
}

/// Everything the accessors say, except byte order and offsets.
pub fn dump(i: &ImageFileDirectory) -> Vec<(&'static str, String)> {
    let mut o: Vec<(&'static str, String)> = vec![];
    macro_rules! d {
        ($($n:ident),*) => { $( o.push((stringify!($n), format!("{:?}", i.$n()))); )* };
    }
    d!(
        new_subfile_type, image_width, image_height, bits_per_sample, compression,
        photometric_interpretation, document_name, image_description, orientation,
        samples_per_pixel, rows_per_strip, strip_byte_counts, min_sample_value, max_sample_value,
        x_resolution, y_resolution, planar_configuration, resolution_unit, software, date_time,
        artist, host_computer, predictor, tile_width, tile_height, tile_byte_counts, extra_samples,
        sample_format, jpeg_tables, copyright, geo_key_directory, model_pixel_scale, model_tiepoint,
        model_transformation, gdal_nodata, gdal_metadata, lerc_parameters, colormap, tile_count
    );
    let mut other: Vec<(u16, String)> =
        i.other_tags().iter().map(|(t, v)| (t.to_u16(), format!("{t:?}={v:?}"))).collect();
    other.sort();
    o.push(("other_tags", format!("{other:?}")));
    o
}

/// All of `dump` plus byte order and offsets.
pub fn dump_full(i: &ImageFileDirectory) -> Vec<(&'static str, String)> {
    let mut o = dump(i);
    o.push(("tile_offsets", format!("{:?}", i.tile_offsets())));
    o.push(("strip_offsets", format!("{:?}", i.strip_offsets())));
    o
}

pub fn diff_dumps(a: &[(&'static str, String)], b: &[(&'static str, String)]) -> Option<String> {
    for (x, y) in a.iter().zip(b) {
        if x != y {
            return Some(format!("{}: {} vs {}", x.0, cut(&x.1), cut(&y.1)));
        }
    }
    if a.len() != b.len() {
        return Some("different number of fields".into());
    }
    None
}

pub fn cut(s: &str) -> String {
    if s.chars().count() > 200 {
        let t: String = s.chars().take(200).collect();
        format!("{t}…")
    } else {
        s.to_string()
    }
}

// ---------- images ----------

/// A tiled image with known pixels.
#[derive(Clone, Debug)]
pub struct Img {
    pub spec: Spec,
    pub iw: u32,
    pub ih: u32,
    pub nx: usize,
    pub ny: usize,
    /// per tile, row-major: expected array bytes
    pub px: Vec<Vec<u8>>,
    /// per tile: encoded parts (one, or one per band)
    pub parts: Vec<Vec<Bytes>>,
    pub photometric: u16,
    pub style: u64,
}

impl Img {
    pub fn gen(s: &mut Src, o: &SpecOpts, max_tiles: usize) -> Option<Img> {
        let spec = Spec::gen(s, o);
        let nx = s.us(1, max_tiles.min(4));
        let ny = s.us(1, (max_tiles / nx).clamp(1, 4));
        Self::with_spec(s, spec, nx, ny)
    }
    pub fn with_spec(s: &mut Src, spec: Spec, nx: usize, ny: usize) -> Option<Img> {
        let iw = ((nx - 1) * spec.w + s.us(1, spec.w)) as u32;
        let ih = ((ny - 1) * spec.h + s.us(1, spec.h)) as u32;
        let seed = s.seed();
        let photometric = *s.pick(&[1u16, 0, 2, 5]);
        let style = s.upto(15);
        let plain = matches!(spec.codec, Codec::Lerc(_));
        let mut px = vec![];
        let mut parts = vec![];
        for t in 0..nx * ny {
            let n = spec.w * spec.h * spec.spp;
            let sd = if seed == 0 { 0 } else { seed.wrapping_add(t as u64 * 7919) };
            let mut p = samples(sd, n, spec.dt, plain);
            if seed == 0 && !p.is_empty() && !spec.dt.is_float() {
                // keep tiles distinguishable even when shrunk
                p[0] = t as u8;
            }
            let e = encode_tile(&spec, &p)?;
            px.push(p);
            parts.push(e.into_iter().map(Bytes::from).collect());
        }
        Some(Img { spec, iw, ih, nx, ny, px, parts, photometric, style })
    }
    pub fn show(&self) -> String {
        format!("{}x{} image, {}x{} tiles of {}", self.iw, self.ih, self.nx, self.ny, self.spec.show())
    }
    /// The directory describing this image; its tiles are appended to `blobs`.
    pub fn ifd(&self, blobs: &mut Vec<Bytes>, long8: bool) -> Ifd {
        let sp = &self.spec;
        let mut i = Ifd::default();
        let dim = |v: u32| {
            if v < 65536 && self.style & 1 != 0 {
                Val::Short(vec![v as u16])
            } else {
                Val::Long(vec![v])
            }
        };
        i.set(tag::WIDTH, dim(self.iw));
        i.set(tag::LENGTH, dim(self.ih));
        i.set(tag::BITS, Val::Short(vec![sp.dt.bits(); sp.spp]));
        if sp.codec != Codec::None || self.style & 2 != 0 {
            i.set(tag::COMPRESSION, Val::Short(vec![sp.codec.code()]));
        }
        i.set(tag::PHOTOMETRIC, Val::Short(vec![self.photometric]));
        i.set(tag::SPP, Val::Short(vec![sp.spp as u16]));
        if sp.planar || self.style & 4 != 0 {
            i.set(tag::PLANAR, Val::Short(vec![if sp.planar { 2 } else { 1 }]));
        }
        if sp.predictor != 1 || self.style & 2 != 0 {
            i.set(tag::PREDICTOR, Val::Short(vec![sp.predictor]));
        }
        i.set(tag::TILE_WIDTH, dim(sp.w as u32));
        i.set(tag::TILE_LENGTH, dim(sp.h as u32));
        let n = self.nx * self.ny;
        let bands = self.parts[0].len();
        let mut offs = vec![];
        let mut counts = vec![];
        for b in 0..bands {
            for t in 0..n {
                offs.push(Some(blobs.len()));
                counts.push(self.parts[t][b].len() as u64);
                blobs.push(self.parts[t][b].clone());
            }
        }
        i.set(tag::TILE_OFFSETS, Val::Offsets(if long8 { 16 } else { 4 }, offs));
        let v = if counts.iter().all(|c| *c < 65536) && self.style & 8 != 0 {
            Val::Short(counts.iter().map(|c| *c as u16).collect())
        } else if long8 {
            Val::Long8(counts)
        } else {
            Val::Long(counts.iter().map(|c| *c as u32).collect())
        };
        i.set(tag::TILE_BYTE_COUNTS, v);
        if sp.dt.format() != 1 || self.style & 8 != 0 {
            i.set(tag::SAMPLE_FORMAT, Val::Short(vec![sp.dt.format(); sp.spp]));
        }
        if let Codec::Lerc(inner) = sp.codec {
            i.set(tag::LERC_PARAMS, Val::Long(vec![4, inner as u32]));
        }
        i
    }
}

pub fn typed_name(t: &TypedArray) -> &'static str {
    match t {
        TypedArray::Bool(_) => "Bool",
        TypedArray::UInt8(_) => "UInt8",
        TypedArray::UInt16(_) => "UInt16",
        TypedArray::UInt32(_) => "UInt32",
        TypedArray::UInt64(_) => "UInt64",
        TypedArray::Int8(_) => "Int8",
        TypedArray::Int16(_) => "Int16",
        TypedArray::Int32(_) => "Int32",
        TypedArray::Int64(_) => "Int64",
        TypedArray::Float32(_) => "Float32",
        TypedArray::Float64(_) => "Float64",
    }
}

/// Native-endian bytes of a typed array, element by element (independent of its byte view).
pub fn typed_bytes(t: &TypedArray) -> Vec<u8> {
    match t {
        TypedArray::Bool(v) => v.iter().map(|b| *b as u8).collect(),
        TypedArray::UInt8(v) => v.clone(),
        TypedArray::UInt16(v) => v.iter().flat_map(|x| x.to_ne_bytes()).collect(),
        TypedArray::UInt32(v) => v.iter().flat_map(|x| x.to_ne_bytes()).collect(),
        TypedArray::UInt64(v) => v.iter().flat_map(|x| x.to_ne_bytes()).collect(),
        TypedArray::Int8(v) => v.iter().map(|x| *x as u8).collect(),
        TypedArray::Int16(v) => v.iter().flat_map(|x| x.to_ne_bytes()).collect(),
        TypedArray::Int32(v) => v.iter().flat_map(|x| x.to_ne_bytes()).collect(),
        TypedArray::Int64(v) => v.iter().flat_map(|x| x.to_ne_bytes()).collect(),
        TypedArray::Float32(v) => v.iter().flat_map(|x| x.to_bits().to_ne_bytes()).collect(),
        TypedArray::Float64(v) => v.iter().flat_map(|x| x.to_bits().to_ne_bytes()).collect(),
    }
}

/// First difference of two byte strings, for messages.
pub fn first_diff(got: &[u8], want: &[u8]) -> String {
    if got.len() != want.len() {
        return format!("{} bytes instead of {}", got.len(), want.len());
    }
    match got.iter().zip(want).position(|(a, b)| a != b) {
        Some(i) => format!("byte {i} of {} is {:#04x} instead of {:#04x}", want.len(), got[i], want[i]),
        None => "equal".into(),
    }
}

pub fn check_array(a: &Array, sp: &Spec, px: &[u8]) -> R {
    check_array_nan(a, sp, px, false)
}

/// One representation for all not-a-numbers.
fn canonical_nan(dt: Dt, b: &mut [u8]) {
    match dt {
        Dt::F32 => b.chunks_exact_mut(4).for_each(|c| {
            if f32::from_ne_bytes(c.try_into().unwrap()).is_nan() {
                c.copy_from_slice(&f32::NAN.to_ne_bytes())
            }
        }),
        Dt::F64 => b.chunks_exact_mut(8).for_each(|c| {
            if f64::from_ne_bytes(c.try_into().unwrap()).is_nan() {
                c.copy_from_slice(&f64::NAN.to_ne_bytes())
            }
        }),
        _ => {}
    }
}

pub fn check_array_nan(a: &Array, sp: &Spec, px: &[u8], any_nan: bool) -> R {
    ensure(a.shape() == sp.shape(), || format!("shape {:?}, expected {:?}", a.shape(), sp.shape()))?;
    ensure(a.data_type() == Some(sp.dt.api()), || {
        format!("data type {:?}, expected {:?}", a.data_type(), sp.dt)
    })?;
    ensure(typed_name(a.data()) == format!("{:?}", sp.dt.api()), || {
        format!("array variant {}, expected {:?}", typed_name(a.data()), sp.dt.api())
    })?;
    let mut got = typed_bytes(a.data());
    if any_nan {
        canonical_nan(sp.dt, &mut got);
    }
    ensure(got == px, || format!("decoded samples differ: {}", first_diff(&got, px)))
}

pub fn decode(t: Tile) -> Result<AsyncTiffResult<Array>, String> {
    sut("decoding a tile", || t.decode(&DecoderRegistry::default()))
}

pub fn parts_of(c: &CompressedBytes) -> Vec<Bytes> {
    match c {
        CompressedBytes::Chunky(b) => vec![b.clone()],
        CompressedBytes::Planar(v) => v.clone(),
    }
}

/// A directory and a reader holding one tile made of the given parts.
pub struct OneTile {
    pub tags: HashMap<Tag, TagValue>,
    pub data: Bytes,
}

/// Lay the parts one after another and describe them as the only tile of an image.
pub fn one_tile(mut ifd: Ifd, parts: &[Bytes]) -> OneTile {
    let mut data = vec![0xA5u8; 8];
    let mut offs = vec![];
    let mut counts = vec![];
    for p in parts {
        offs.push(data.len() as u64);
        counts.push(p.len() as u64);
        data.extend_from_slice(p);
        data.push(0x5A);
    }
    ifd.set(tag::TILE_OFFSETS, Val::Long8(offs));
    ifd.set(tag::TILE_BYTE_COUNTS, Val::Long8(counts));
    OneTile { tags: tag_map(&ifd, &[]), data: data.into() }
}

impl OneTile {
    pub fn reader(&self) -> crate::io::Mem {
        crate::io::Mem(
            crate::io::Shared::new(std::sync::Arc::new(SparseFile::dense(self.data.clone()))).arc(),
        )
    }
    /// from_tags, fetch (0, 0)
    pub fn fetch(&self, e: Endianness) -> Result<AsyncTiffResult<Tile>, String> {
        let tags = self.tags.clone();
        let ifd = match sut("from_tags", || ImageFileDirectory::from_tags(tags, e))? {
            Ok(i) => i,
            Err(e) => return Ok(Err(e)),
        };
        let r = self.reader();
        block_on("fetching a tile", ifd.fetch_tile(0, 0, &r))
    }
    pub fn decode(&self, e: Endianness) -> Result<AsyncTiffResult<Array>, String> {
        match self.fetch(e)? {
            Ok(t) => decode(t),
            Err(e) => Ok(Err(e)),
        }
    }
}

/// Directory describing a single tile of `sp` (offset tables are set by `one_tile`).
pub fn spec_ifd(sp: &Spec) -> Ifd {
    let mut i = Ifd::default();
    i.set(tag::WIDTH, Val::Long(vec![sp.w as u32]));
    i.set(tag::LENGTH, Val::Long(vec![sp.h as u32]));
    i.set(tag::BITS, Val::Short(vec![sp.dt.bits(); sp.spp]));
    i.set(tag::COMPRESSION, Val::Short(vec![sp.codec.code()]));
    i.set(tag::PHOTOMETRIC, Val::Short(vec![if sp.spp >= 3 { 2 } else { 1 }]));
    i.set(tag::SPP, Val::Short(vec![sp.spp as u16]));
    i.set(tag::PLANAR, Val::Short(vec![if sp.planar { 2 } else { 1 }]));
    i.set(tag::PREDICTOR, Val::Short(vec![sp.predictor]));
    i.set(tag::TILE_WIDTH, Val::Long(vec![sp.w as u32]));
    i.set(tag::TILE_LENGTH, Val::Long(vec![sp.h as u32]));
    i.set(tag::SAMPLE_FORMAT, Val::Short(vec![sp.dt.format(); sp.spp]));
    if let Codec::Lerc(inner) = sp.codec {
        i.set(tag::LERC_PARAMS, Val::Long(vec![4, inner as u32]));
    }
    i
}

pub fn endian(big: bool) -> Endianness {
    if big {
        Endianness::BigEndian
    } else {
        Endianness::LittleEndian
    }
}

pub fn err_kind(e: &AsyncTiffError) -> String {
    cut(&format!("{e}"))
}
