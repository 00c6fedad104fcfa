//! Independent TIFF writer used as the reference model of the file format.
use std::collections::BTreeMap;
use std::ops::Range;
use std::sync::Arc;

use async_tiff::TagValue;
use bytes::Bytes;

use crate::engine::Src;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Flavour {
    pub big_endian: bool,
    pub bigtiff: bool,
}

impl Flavour {
    pub fn gen(s: &mut Src) -> Self {
        Flavour { big_endian: s.bool(), bigtiff: s.bool() }
    }
    pub fn all() -> [Flavour; 4] {
        let mut v = [Flavour { big_endian: false, bigtiff: false }; 4];
        for (i, f) in v.iter_mut().enumerate() {
            f.big_endian = i & 1 != 0;
            f.bigtiff = i & 2 != 0;
        }
        v
    }
    pub fn name(&self) -> &'static str {
        match (self.big_endian, self.bigtiff) {
            (false, false) => "II",
            (true, false) => "MM",
            (false, true) => "II+big",
            (true, true) => "MM+big",
        }
    }
    pub fn endianness(&self) -> async_tiff::reader::Endianness {
        if self.big_endian {
            async_tiff::reader::Endianness::BigEndian
        } else {
            async_tiff::reader::Endianness::LittleEndian
        }
    }
    pub fn u16(&self, v: u16) -> [u8; 2] {
        if self.big_endian { v.to_be_bytes() } else { v.to_le_bytes() }
    }
    pub fn u32(&self, v: u32) -> [u8; 4] {
        if self.big_endian { v.to_be_bytes() } else { v.to_le_bytes() }
    }
    pub fn u64(&self, v: u64) -> [u8; 8] {
        if self.big_endian { v.to_be_bytes() } else { v.to_le_bytes() }
    }
    pub fn header_len(&self) -> u64 {
        if self.bigtiff { 16 } else { 8 }
    }
    pub fn entry_len(&self) -> u64 {
        if self.bigtiff { 20 } else { 12 }
    }
    pub fn inline_len(&self) -> u64 {
        if self.bigtiff { 8 } else { 4 }
    }
    pub fn count_len(&self) -> u64 {
        if self.bigtiff { 8 } else { 2 }
    }
}

/// A field value as stored. Floats are kept as bits.
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Byte(Vec<u8>),
    Undef(Vec<u8>),
    Ascii(Vec<u8>),
    SByte(Vec<i8>),
    Short(Vec<u16>),
    SShort(Vec<i16>),
    Long(Vec<u32>),
    SLong(Vec<i32>),
    Long8(Vec<u64>),
    SLong8(Vec<i64>),
    Float(Vec<u32>),
    Double(Vec<u64>),
    Rational(Vec<(u32, u32)>),
    SRational(Vec<(i32, i32)>),
    Ifd(Vec<u32>),
    Ifd8(Vec<u64>),
    /// Offsets of blobs (type code 3, 4, 13, 16 or 18); None = offset 0.
    Offsets(u16, Vec<Option<usize>>),
}

pub const TYPES: [u16; 16] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 18];

pub fn type_size(t: u16) -> u64 {
    match t {
        1 | 2 | 6 | 7 => 1,
        3 | 8 => 2,
        4 | 9 | 11 | 13 => 4,
        _ => 8,
    }
}

impl Val {
    pub fn shorts(v: &[u16]) -> Val {
        Val::Short(v.to_vec())
    }
    pub fn ty(&self) -> u16 {
        match self {
            Val::Byte(_) => 1,
            Val::Ascii(_) => 2,
            Val::Short(_) => 3,
            Val::Long(_) => 4,
            Val::Rational(_) => 5,
            Val::SByte(_) => 6,
            Val::Undef(_) => 7,
            Val::SShort(_) => 8,
            Val::SLong(_) => 9,
            Val::SRational(_) => 10,
            Val::Float(_) => 11,
            Val::Double(_) => 12,
            Val::Ifd(_) => 13,
            Val::Long8(_) => 16,
            Val::SLong8(_) => 17,
            Val::Ifd8(_) => 18,
            Val::Offsets(t, _) => *t,
        }
    }
    pub fn count(&self) -> u64 {
        (match self {
            Val::Byte(v) | Val::Undef(v) | Val::Ascii(v) => v.len(),
            Val::SByte(v) => v.len(),
            Val::Short(v) => v.len(),
            Val::SShort(v) => v.len(),
            Val::Long(v) | Val::Float(v) | Val::Ifd(v) => v.len(),
            Val::SLong(v) => v.len(),
            Val::Long8(v) | Val::Double(v) | Val::Ifd8(v) => v.len(),
            Val::SLong8(v) => v.len(),
            Val::Rational(v) => v.len(),
            Val::SRational(v) => v.len(),
            Val::Offsets(_, v) => v.len(),
        }) as u64
    }
    pub fn byte_len(&self) -> u64 {
        self.count() * type_size(self.ty())
    }
    pub fn encode(&self, f: Flavour, blob_offsets: &[u64]) -> Vec<u8> {
        let mut o = Vec::with_capacity(self.byte_len() as usize);
        match self {
            Val::Byte(v) | Val::Undef(v) | Val::Ascii(v) => o.extend_from_slice(v),
            Val::SByte(v) => v.iter().for_each(|x| o.push(*x as u8)),
            Val::Short(v) => v.iter().for_each(|x| o.extend(f.u16(*x))),
            Val::SShort(v) => v.iter().for_each(|x| o.extend(f.u16(*x as u16))),
            Val::Long(v) | Val::Float(v) | Val::Ifd(v) => v.iter().for_each(|x| o.extend(f.u32(*x))),
            Val::SLong(v) => v.iter().for_each(|x| o.extend(f.u32(*x as u32))),
            Val::Long8(v) | Val::Double(v) | Val::Ifd8(v) => {
                v.iter().for_each(|x| o.extend(f.u64(*x)))
            }
            Val::SLong8(v) => v.iter().for_each(|x| o.extend(f.u64(*x as u64))),
            Val::Rational(v) => v.iter().for_each(|(a, b)| {
                o.extend(f.u32(*a));
                o.extend(f.u32(*b));
            }),
            Val::SRational(v) => v.iter().for_each(|(a, b)| {
                o.extend(f.u32(*a as u32));
                o.extend(f.u32(*b as u32));
            }),
            Val::Offsets(t, v) => v.iter().for_each(|b| {
                let off = b.map(|i| blob_offsets[i]).unwrap_or(0);
                match type_size(*t) {
                    2 => o.extend(f.u16(u16::try_from(off).expect("short offset"))),
                    4 => o.extend(f.u32(u32::try_from(off).expect("long offset"))),
                    _ => o.extend(f.u64(off)),
                }
            }),
        }
        o
    }
    /// The value of `raw` read as type `ty`.
    pub fn parse(f: Flavour, ty: u16, raw: &[u8]) -> Val {
        fn ints<T>(f: Flavour, size: usize, raw: &[u8], c: impl Fn(u64) -> T) -> Vec<T> {
            raw.chunks_exact(size)
                .map(|b| {
                    let n = |i: usize| if f.big_endian { b[i] } else { b[size - 1 - i] };
                    c((0..size).fold(0u64, |a, i| a << 8 | n(i) as u64))
                })
                .collect()
        }
        match ty {
            1 => Val::Byte(raw.to_vec()),
            2 => Val::Ascii(raw.to_vec()),
            7 => Val::Undef(raw.to_vec()),
            6 => Val::SByte(raw.iter().map(|x| *x as i8).collect()),
            3 => Val::Short(ints(f, 2, raw, |x| x as u16)),
            8 => Val::SShort(ints(f, 2, raw, |x| x as i16)),
            4 => Val::Long(ints(f, 4, raw, |x| x as u32)),
            9 => Val::SLong(ints(f, 4, raw, |x| x as i32)),
            11 => Val::Float(ints(f, 4, raw, |x| x as u32)),
            13 => Val::Ifd(ints(f, 4, raw, |x| x as u32)),
            12 => Val::Double(ints(f, 8, raw, |x| x)),
            16 => Val::Long8(ints(f, 8, raw, |x| x)),
            17 => Val::SLong8(ints(f, 8, raw, |x| x as i64)),
            18 => Val::Ifd8(ints(f, 8, raw, |x| x)),
            5 => Val::Rational(ints(f, 4, raw, |x| x as u32).chunks_exact(2).map(|c| (c[0], c[1])).collect()),
            10 => Val::SRational(ints(f, 4, raw, |x| x as i32).chunks_exact(2).map(|c| (c[0], c[1])).collect()),
            _ => unreachable!(),
        }
    }
    /// What the library must report for this value.
    pub fn expect(&self) -> TagValue {
        fn l<T: Copy>(v: &[T], f: impl Fn(T) -> TagValue) -> TagValue {
            if v.len() == 1 {
                f(v[0])
            } else {
                TagValue::List(v.iter().map(|x| f(*x)).collect())
            }
        }
        match self {
            Val::Byte(v) | Val::Undef(v) => l(v, TagValue::Byte),
            Val::Ascii(v) => {
                if v.is_empty() {
                    return TagValue::List(vec![]);
                }
                let end = v.iter().position(|b| *b == 0).unwrap_or(v.len());
                TagValue::Ascii(String::from_utf8_lossy(&v[..end]).into_owned())
            }
            Val::SByte(v) => l(v, TagValue::SignedByte),
            Val::Short(v) => l(v, TagValue::Short),
            Val::SShort(v) => l(v, TagValue::SignedShort),
            Val::Long(v) => l(v, TagValue::Unsigned),
            Val::SLong(v) => l(v, TagValue::Signed),
            Val::Long8(v) => l(v, TagValue::UnsignedBig),
            Val::SLong8(v) => l(v, TagValue::SignedBig),
            Val::Float(v) => l(v, |x| TagValue::Float(f32::from_bits(x))),
            Val::Double(v) => l(v, |x| TagValue::Double(f64::from_bits(x))),
            Val::Rational(v) => l(v, |(a, b)| TagValue::Rational(a, b)),
            Val::SRational(v) => l(v, |(a, b)| TagValue::SRational(a, b)),
            Val::Ifd(v) => l(v, TagValue::Ifd),
            Val::Ifd8(v) => l(v, TagValue::IfdBig),
            Val::Offsets(..) => panic!("offsets have no static expectation"),
        }
    }
    /// An arbitrary value of a type.
    pub fn gen(s: &mut Src, ty: u16, count: usize) -> Val {
        // long lists: bulk content, with boundary elements at the ends
        macro_rules! g {
            ($var:ident, $t:ty, $bits:expr) => {{
                if count > 12 {
                    let sd = s.seed();
                    let raw = crate::engine::bulk(sd, count * 8);
                    Val::$var(
                        raw.chunks_exact(8)
                            .map(|c| u64::from_le_bytes(c.try_into().unwrap()) as $t)
                            .collect(),
                    )
                } else {
                    Val::$var((0..count).map(|_| s.ubits($bits) as $t).collect())
                }
            }};
        }
        match ty {
            1 => g!(Byte, u8, 8),
            7 => g!(Undef, u8, 8),
            2 => {
                let style = s.upto(4);
                let mut v: Vec<u8> = match style {
                    4 => {
                        // whatever someone may want to trim, decode or escape
                        const POOL: [&str; 14] = [
                            "\u{feff}", "\u{fffd}", " ", "\t", "\r\n", "\n", "\"", "'", "|", "\\", "\u{a0}", "a", "%20", "\u{1f600}",
                        ];
                        let mut v = vec![];
                        while v.len() < count {
                            if v.len() > 64 {
                                v.extend_from_within(..);
                            } else {
                                v.extend_from_slice(s.pick(&POOL).as_bytes());
                            }
                        }
                        v.truncate(count);
                        v
                    }
                    0 => (0..count).map(|i| b'a' + (i % 26) as u8).collect(),
                    1 => {
                        let sd = s.seed();
                        crate::engine::bulk(sd, count)
                    }
                    2 => "héllo wörld ☃ 漢字 ".bytes().cycle().take(count).collect(),
                    _ => {
                        if count <= 12 {
                            (0..count).map(|_| s.ubits(8) as u8).collect()
                        } else {
                            let sd = s.seed();
                            crate::engine::bulk(sd, count).into_iter().map(|b| 32 + b % 95).collect()
                        }
                    }
                };
                if count > 0 && s.chance(2, 3) {
                    v[count - 1] = 0;
                }
                if count > 1 && s.chance(1, 5) {
                    let k = s.us(0, count - 1);
                    v[k] = 0;
                }
                Val::Ascii(v)
            }
            3 => g!(Short, u16, 16),
            4 => g!(Long, u32, 32),
            5 => {
                let n = count.min(12);
                let mut v: Vec<(u32, u32)> =
                    (0..n).map(|_| (s.ubits(32) as u32, s.ubits(32) as u32)).collect();
                for i in n..count {
                    v.push((i as u32, !(i as u32)));
                }
                Val::Rational(v)
            }
            6 => g!(SByte, i8, 8),
            8 => g!(SShort, i16, 16),
            9 => g!(SLong, i32, 32),
            10 => {
                let n = count.min(12);
                let mut v: Vec<(i32, i32)> =
                    (0..n).map(|_| (s.ubits(32) as i32, s.ubits(32) as i32)).collect();
                for i in n..count {
                    v.push((i as i32, -(i as i32)));
                }
                Val::SRational(v)
            }
            11 => g!(Float, u32, 32),
            12 => g!(Double, u64, 64),
            13 => g!(Ifd, u32, 32),
            16 => g!(Long8, u64, 64),
            17 => g!(SLong8, i64, 64),
            18 => g!(Ifd8, u64, 64),
            _ => unreachable!(),
        }
    }
}

/// Structural equality with floats compared bit by bit.
pub fn tv_eq(a: &TagValue, b: &TagValue) -> bool {
    use TagValue::*;
    match (a, b) {
        (Float(x), Float(y)) => x.to_bits() == y.to_bits(),
        (Double(x), Double(y)) => x.to_bits() == y.to_bits(),
        (List(x), List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| tv_eq(p, q)),
        (Float(_) | Double(_) | List(_), _) | (_, Float(_) | Double(_) | List(_)) => false,
        _ => a == b,
    }
}

pub fn tv_short(v: &TagValue) -> String {
    let s = format!("{v:?}");
    if s.len() > 160 {
        let mut e = 160;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}… ({} chars)", &s[..e], s.len())
    } else {
        s
    }
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub tag: u16,
    pub val: Val,
}

#[derive(Clone, Debug, Default)]
pub struct Ifd {
    pub entries: Vec<Entry>,
}

impl Ifd {
    pub fn set(&mut self, tag: u16, val: Val) {
        if let Some(e) = self.entries.iter_mut().find(|e| e.tag == tag) {
            e.val = val;
        } else {
            self.entries.push(Entry { tag, val });
        }
    }
    pub fn get(&self, tag: u16) -> Option<&Val> {
        self.entries.iter().find(|e| e.tag == tag).map(|e| &e.val)
    }
    pub fn remove(&mut self, tag: u16) {
        self.entries.retain(|e| e.tag != tag);
    }
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub ifds: Vec<Ifd>,
    pub blobs: Vec<Bytes>,
}

/// A possibly sparse file. Unwritten bytes are a filler pattern.
#[derive(Clone, Debug)]
pub struct SparseFile {
    pub segs: BTreeMap<u64, Bytes>,
    pub len: u64,
    pub fill: u8,
}

impl SparseFile {
    pub fn dense(data: Bytes) -> Self {
        let len = data.len() as u64;
        let mut segs = BTreeMap::new();
        segs.insert(0, data);
        SparseFile { segs, len, fill: 0 }
    }
    pub fn filler(&self, off: u64) -> u8 {
        if self.fill == 0 {
            0
        } else {
            ((off ^ (off >> 29)).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 56) as u8 ^ self.fill
        }
    }
    /// Bytes of `range`, cut at the end of the file.
    pub fn read(&self, range: Range<u64>) -> Bytes {
        let end = range.end.min(self.len);
        let start = range.start.min(end);
        if start == end {
            return Bytes::new();
        }
        // whole range inside one segment: no copy
        if let Some((o, b)) = self.segs.range(..=start).next_back() {
            if end <= o + b.len() as u64 {
                return b.slice((start - o) as usize..(end - o) as usize);
            }
        }
        let mut out: Vec<u8> = (start..end).map(|o| self.filler(o)).collect();
        for (o, b) in self.segs.range(..end) {
            let bo = *o;
            let be = bo + b.len() as u64;
            if be <= start {
                continue;
            }
            let s = bo.max(start);
            let e = be.min(end);
            out[(s - start) as usize..(e - start) as usize]
                .copy_from_slice(&b[(s - bo) as usize..(e - bo) as usize]);
        }
        out.into()
    }
    pub fn to_dense(&self) -> Bytes {
        self.read(0..self.len)
    }
}

#[derive(Clone, Debug)]
pub struct Written {
    pub file: Arc<SparseFile>,
    pub flavour: Flavour,
    pub ifd_offsets: Vec<u64>,
    pub blob_offsets: Vec<u64>,
    /// byte ranges of header, directories and out-of-line values
    pub meta_ranges: Vec<Range<u64>>,
}

/// How chunks are laid out.
#[derive(Clone, Debug, Default)]
pub struct Layout {
    /// order of the chunks (indexes into [ifds.., values.., blobs..]); identity if empty
    pub order: Vec<usize>,
    /// gap before the k-th placed chunk
    pub gaps: Vec<u64>,
    pub fill: u8,
    /// bytes after the last chunk
    pub tail: u64,
}

#[derive(Clone, Copy, Debug)]
pub enum ChunkId {
    Ifd(usize),
    Val(usize, usize),
    Blob(usize),
}

pub fn chunks(m: &Model, f: Flavour) -> Vec<(ChunkId, u64)> {
    let mut v = vec![];
    for (i, ifd) in m.ifds.iter().enumerate() {
        let n = ifd.entries.len() as u64;
        v.push((ChunkId::Ifd(i), f.count_len() + n * f.entry_len() + f.inline_len()));
    }
    for (i, ifd) in m.ifds.iter().enumerate() {
        for (j, e) in ifd.entries.iter().enumerate() {
            if e.val.byte_len() > f.inline_len() {
                v.push((ChunkId::Val(i, j), e.val.byte_len()));
            }
        }
    }
    for (k, b) in m.blobs.iter().enumerate() {
        v.push((ChunkId::Blob(k), b.len() as u64));
    }
    v
}

impl Layout {
    /// COG-like: directories and values first, then blobs, small gaps.
    pub fn sequential() -> Self {
        Layout::default()
    }
    /// Arbitrary order and gaps. `far` allows one large gap (sparse file).
    pub fn gen(s: &mut Src, m: &Model, f: Flavour, far: bool) -> Self {
        let n = chunks(m, f).len();
        let order = match s.upto(3) {
            0 => vec![],
            1 => (0..n).rev().collect(),
            _ => {
                if n <= 40 {
                    s.perm(n)
                } else {
                    // large files: permutation from one seed
                    let mut sd = s.seed();
                    let mut v: Vec<usize> = (0..n).collect();
                    for i in 0..n - 1 {
                        let j = i + (crate::engine::splitmix(&mut sd) % (n - i) as u64) as usize;
                        v.swap(i, j);
                    }
                    v
                }
            }
        };
        let mut gaps = vec![0u64; n];
        if s.bool() {
            for _ in 0..s.us(1, 4) {
                let k = s.us(0, n - 1);
                gaps[k] = match s.upto(3) {
                    0 => 1,
                    1 => s.int(1, 16),
                    2 => s.int(1, 5000),
                    _ => s.int(1, 70_000),
                };
            }
        }
        if far && s.chance(1, 5) {
            // two pieces whose offsets agree in their lower bits
            let ch = chunks(m, f);
            let at = |k: usize| if order.is_empty() { k } else { order[k] };
            let mut pos: Vec<usize> = (0..n).filter(|k| matches!(ch[at(*k)].0, ChunkId::Ifd(_))).collect();
            if pos.len() < 2 || s.bool() {
                pos = (0..n).collect();
            }
            let bits = if f.bigtiff { *s.pick(&[32, 16, 24, 31, 33, 40, 48, 56, 62]) } else { *s.pick(&[16, 24, 30]) };
            if pos.len() >= 2 {
                let j = s.us(1, pos.len() - 1);
                let i = s.us(0, j - 1);
                let dist: u64 = (pos[i]..pos[j]).map(|k| ch[at(k)].1 + gaps[k + 1]).sum();
                if dist <= 1 << bits {
                    gaps[pos[j]] += (1u64 << bits) - dist;
                }
            }
        } else if far && s.chance(1, 3) {
            let k = s.us(0, n - 1);
            gaps[k] = if f.bigtiff {
                let total: u64 = chunks(m, f).iter().map(|c| c.1).sum::<u64>() + 300_000;
                match s.int(31, 64) {
                    64 => u64::MAX - (1 << 22) - total - s.upto(1000),
                    b => (1u64 << b) + s.upto(64) - 32,
                }
            } else {
                let total: u64 = chunks(m, f).iter().map(|c| c.1).sum::<u64>() + 300_000;
                let top = u32::MAX as u64 - total;
                if s.bool() {
                    top - s.upto(1000)
                } else {
                    (1u64 << s.int(16, 31)).min(top)
                }
            };
        }
        Layout { order, gaps, fill: s.upto(255) as u8, tail: if s.chance(1, 3) { s.upto(64) } else { 0 } }
    }
}

pub fn write(m: &Model, f: Flavour, l: &Layout) -> Written {
    let ch = chunks(m, f);
    let mut pos = f.header_len();
    let mut offs = vec![0u64; ch.len()];
    for k in 0..ch.len() {
        let c = if l.order.is_empty() { k } else { l.order[k] };
        pos += l.gaps.get(k).copied().unwrap_or(0);
        offs[c] = pos;
        pos += ch[c].1;
    }
    let len = pos + l.tail;
    if !f.bigtiff {
        assert!(len <= u32::MAX as u64 + 1, "classic file too long");
    }
    let mut ifd_offsets = vec![0; m.ifds.len()];
    let mut blob_offsets = vec![0; m.blobs.len()];
    let mut val_offsets: BTreeMap<(usize, usize), u64> = BTreeMap::new();
    for (k, (id, _)) in ch.iter().enumerate() {
        match id {
            ChunkId::Ifd(i) => ifd_offsets[*i] = offs[k],
            ChunkId::Val(i, j) => {
                val_offsets.insert((*i, *j), offs[k]);
            }
            ChunkId::Blob(b) => blob_offsets[*b] = offs[k],
        }
    }
    let mut segs = BTreeMap::new();
    let mut meta_ranges = vec![];
    let mut head = vec![];
    head.extend_from_slice(if f.big_endian { b"MM" } else { b"II" });
    let first = ifd_offsets.first().copied().unwrap_or(0);
    if f.bigtiff {
        head.extend(f.u16(43));
        head.extend(f.u16(8));
        head.extend(f.u16(0));
        head.extend(f.u64(first));
    } else {
        head.extend(f.u16(42));
        head.extend(f.u32(first as u32));
    }
    meta_ranges.push(0..head.len() as u64);
    segs.insert(0, Bytes::from(head));
    for (i, ifd) in m.ifds.iter().enumerate() {
        let mut b = vec![];
        if f.bigtiff {
            b.extend(f.u64(ifd.entries.len() as u64));
        } else {
            b.extend(f.u16(ifd.entries.len() as u16));
        }
        for (j, e) in ifd.entries.iter().enumerate() {
            b.extend(f.u16(e.tag));
            b.extend(f.u16(e.val.ty()));
            if f.bigtiff {
                b.extend(f.u64(e.val.count()));
            } else {
                b.extend(f.u32(e.val.count() as u32));
            }
            let mut data = e.val.encode(f, &blob_offsets);
            if let Some(o) = val_offsets.get(&(i, j)) {
                if f.bigtiff {
                    b.extend(f.u64(*o));
                } else {
                    b.extend(f.u32(*o as u32));
                }
                meta_ranges.push(*o..*o + data.len() as u64);
                segs.insert(*o, data.into());
            } else {
                // unused inline bytes are arbitrary
                let pad = l.fill;
                data.resize(f.inline_len() as usize, pad);
                b.extend(data);
            }
        }
        let next = ifd_offsets.get(i + 1).copied().unwrap_or(0);
        if f.bigtiff {
            b.extend(f.u64(next));
        } else {
            b.extend(f.u32(next as u32));
        }
        meta_ranges.push(ifd_offsets[i]..ifd_offsets[i] + b.len() as u64);
        segs.insert(ifd_offsets[i], b.into());
    }
    for (k, b) in m.blobs.iter().enumerate() {
        if !b.is_empty() {
            segs.insert(blob_offsets[k], b.clone());
        }
    }
    Written {
        file: Arc::new(SparseFile { segs, len, fill: l.fill }),
        flavour: f,
        ifd_offsets,
        blob_offsets,
        meta_ranges,
    }
}

pub mod tag {
    pub const NEW_SUBFILE: u16 = 254;
    pub const WIDTH: u16 = 256;
    pub const LENGTH: u16 = 257;
    pub const BITS: u16 = 258;
    pub const COMPRESSION: u16 = 259;
    pub const PHOTOMETRIC: u16 = 262;
    pub const STRIP_OFFSETS: u16 = 273;
    pub const SPP: u16 = 277;
    pub const STRIP_BYTE_COUNTS: u16 = 279;
    pub const PLANAR: u16 = 284;
    pub const PREDICTOR: u16 = 317;
    pub const TILE_WIDTH: u16 = 322;
    pub const TILE_LENGTH: u16 = 323;
    pub const TILE_OFFSETS: u16 = 324;
    pub const TILE_BYTE_COUNTS: u16 = 325;
    pub const SAMPLE_FORMAT: u16 = 339;
    pub const JPEG_TABLES: u16 = 347;
    pub const GEO_KEYS: u16 = 34735;
    pub const GEO_DOUBLES: u16 = 34736;
    pub const GEO_ASCII: u16 = 34737;
    pub const LERC_PARAMS: u16 = 50674;
}

/// The smallest set of tags a directory needs.
pub fn minimal_ifd(w: u32, h: u32) -> Ifd {
    let mut i = Ifd::default();
    i.set(tag::WIDTH, Val::Long(vec![w]));
    i.set(tag::LENGTH, Val::Long(vec![h]));
    i.set(tag::BITS, Val::Short(vec![8]));
    i.set(tag::PHOTOMETRIC, Val::Short(vec![1]));
    i.set(tag::SPP, Val::Short(vec![1]));
    i
}
