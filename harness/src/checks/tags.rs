//! C18, C19, C21: values and codes.
use std::collections::BTreeMap;

use async_tiff::geo::GeoKeyDirectory;
use async_tiff::tags::*;
use async_tiff::{ImageFileDirectory, TagValue};

use super::*;
use crate::io::*;

// ---------- C18 ----------

pub const C18: Check = Check {
    id: "C18",
    f: c18,
    quick: 6_000_000,
    thorough: 120_000_000,
    level: "exploration",
    rule: "a case is non-trivial if the directory has at least two known keys of different kinds, or is malformed",
    assumptions: &[
        "keys are distinct; a known key whose value lies in another tag than GeoDoubleParams or GeoAsciiParams is None or makes reading fail (in the directory tag itself it may also be read)",
        "a directory whose version or key revision is not 1 is malformed, and so is a single-valued key that refers to no or several doubles",
        "GeoAsciiParams is ASCII text, as the specification requires",
    ],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum GK {
    S,
    D,
    A,
}

/// Known GeoKeys and the kind of their values.
#[cfg(feature = "py")]
pub fn geo_ids() -> Vec<(u16, char)> {
    GEO.iter().map(|(id, _, k)| (*id, match k { GK::S => 'S', GK::D => 'D', GK::A => 'A' })).collect()
}

macro_rules! geo_keys {
    ($($id:literal $f:ident $k:ident,)*) => {
        const GEO: &[(u16, &str, GK)] = &[$(($id, stringify!($f), GK::$k)),*];
        fn geo_fields(g: &GeoKeyDirectory) -> BTreeMap<u16, Option<String>> {
            let mut m = BTreeMap::new();
            $( m.insert($id, geo_keys!(@get $k g.$f)); )*
            m
        }
    };
    (@get S $e:expr) => { $e.map(|v| format!("{v}")) };
    (@get D $e:expr) => { $e.map(|v| format!("{:#018x}", v.to_bits())) };
    (@get A $e:expr) => { $e.clone().map(|v| format!("{v:?}")) };
}

geo_keys! {
    1024 model_type S, 1025 raster_type S, 1026 citation A,
    2048 geographic_type S, 2049 geog_citation A, 2050 geog_geodetic_datum S,
    2051 geog_prime_meridian S, 2052 geog_linear_units S, 2053 geog_linear_unit_size D,
    2054 geog_angular_units S, 2055 geog_angular_unit_size D, 2056 geog_ellipsoid S,
    2057 geog_semi_major_axis D, 2058 geog_semi_minor_axis D, 2059 geog_inv_flattening D,
    2060 geog_azimuth_units S, 2061 geog_prime_meridian_long D,
    3072 projected_type S, 3073 proj_citation A, 3074 projection S, 3075 proj_coord_trans S,
    3076 proj_linear_units S, 3077 proj_linear_unit_size D, 3078 proj_std_parallel1 D,
    3079 proj_std_parallel2 D, 3080 proj_nat_origin_long D, 3081 proj_nat_origin_lat D,
    3082 proj_false_easting D, 3083 proj_false_northing D, 3084 proj_false_origin_long D,
    3085 proj_false_origin_lat D, 3086 proj_false_origin_easting D,
    3087 proj_false_origin_northing D, 3088 proj_center_long D, 3089 proj_center_lat D,
    3090 proj_center_easting D, 3091 proj_center_northing D, 3092 proj_scale_at_nat_origin D,
    3093 proj_scale_at_center D, 3094 proj_azimuth_angle D, 3095 proj_straight_vert_pole_long D,
    4096 vertical S, 4097 vertical_citation A, 4098 vertical_datum S, 4099 vertical_units S,
}

fn c18(s: &mut Src, cx: &mut Cx) -> R {
    let mut keys: Vec<[u16; 4]> = vec![];
    let mut doubles: Vec<u64> = vec![];
    let mut ascii: Vec<u8> = vec![];
    let mut exp: BTreeMap<u16, Option<String>> = GEO.iter().map(|k| (k.0, None)).collect();
    let mut kinds = [false; 3];
    for _ in 0..s.us(0, 2) {
        doubles.push(s.ubits(64));
    }
    if s.bool() {
        ascii.extend_from_slice(b"unused|");
    }
    // sometimes the parameters are long, up to what a reference can address
    if s.chance(1, 60) {
        let n = if s.chance(1, 20) { s.us(30_000, 65_000) } else { s.us(200, 600) };
        let sd = s.seed();
        doubles.extend((0..n as u64).map(|i| i.wrapping_mul(sd | 1)));
        cx.label("long parameters");
    }
    if s.chance(1, 60) {
        let n = if s.chance(1, 20) { s.us(30_000, 65_000) } else { s.us(200, 600) };
        ascii.extend((0..n).map(|i| b'!' + (i % 90) as u8));
        cx.label("long parameters");
    }
    let n = if s.chance(1, 8) { 46 } else { s.us(0, 10) };
    let order: Vec<usize> = if n == 46 { s.perm(GEO.len()) } else { (0..n).map(|_| s.us(0, GEO.len() - 1)).collect() };
    let mut used: Vec<u16> = vec![];
    for k in order {
        let (id, _, kind) = GEO[k];
        if used.contains(&id) {
            continue;
        }
        used.push(id);
        match kind {
            GK::S => {
                let v = s.ubits(16) as u16;
                keys.push([id, 0, 1, v]);
                exp.insert(id, Some(format!("{v}")));
                kinds[0] = true;
            }
            GK::D => {
                let at = if !doubles.is_empty() && s.chance(1, 6) {
                    s.us(0, doubles.len() - 1)
                } else {
                    doubles.push(s.ubits(64));
                    doubles.len() - 1
                };
                keys.push([id, 34736, 1, at as u16]);
                exp.insert(id, Some(format!("{:#018x}", doubles[at])));
                kinds[1] = true;
            }
            GK::A => {
                let (at, len) = if !ascii.is_empty() && s.chance(1, 5) {
                    let at = s.us(0, ascii.len() - 1);
                    (at, s.us(0, ascii.len() - at))
                } else {
                    let at = ascii.len();
                    for _ in 0..s.us(0, 8) {
                        ascii.push(*s.pick(b"aZ09 /=|.~"));
                    }
                    if s.chance(4, 5) {
                        ascii.push(b'|');
                    }
                    (at, ascii.len() - at)
                };
                keys.push([id, 34737, len as u16, at as u16]);
                let mut t = &ascii[at..at + len];
                if t.last() == Some(&b'|') {
                    t = &t[..t.len() - 1];
                }
                exp.insert(id, Some(format!("{:?}", String::from_utf8(t.to_vec()).unwrap())));
                kinds[2] = true;
            }
        }
    }
    // unknown keys in between
    let unknown = if s.chance(1, 100) { s.us(4, 600) } else { s.us(0, 3) };
    for _ in 0..unknown {
        let id = if s.bool() { *s.pick(&[0u16, 1, 1027, 2047, 2062, 3096, 4095, 4100, 5120, 32767, 65535]) } else { s.ubits(16) as u16 };
        if GEO.iter().any(|g| g.0 == id) || used.contains(&id) {
            continue;
        }
        used.push(id);
        let at = s.us(0, keys.len());
        let e = [id, *s.pick(&[0u16, 34736, 34737, 34735, 7]), s.ubits(16) as u16, s.ubits(16) as u16];
        keys.insert(at, e);
    }
    let mut head = vec![1u16, 1, s.upto(3) as u16, keys.len() as u16];
    let mut bad: Option<String> = None;
    let mut truncate = 0usize;
    let mut no_params = false;
    if s.chance(1, 4) {
        let known: Vec<usize> = (0..keys.len()).filter(|i| GEO.iter().any(|g| g.0 == keys[*i][0])).collect();
        let c = s.upto(6);
        if c == 0 || known.is_empty() {
            let i = s.us(0, 1);
            head[i] = *s.pick(&[0u16, 2, 257, 65535]);
            bad = Some(format!("wrong directory {}", if i == 0 { "version" } else { "revision" }));
        } else if c == 1 {
            truncate = s.us(1, 4 * keys.len());
            bad = Some(format!("truncated by {truncate} shorts"));
        } else {
            let i = *s.pick(&known);
            let kind = GEO.iter().find(|g| g.0 == keys[i][0]).unwrap().2;
            let e = &mut keys[i];
            match (kind, c % 3) {
                (GK::D, 0) if s.bool() => {
                    e[3] = 0;
                    e[2] = if doubles.len() > 1 { *s.pick(&[0u16, 2, doubles.len().min(65535) as u16]) } else { 0 };
                    bad = Some(format!("a single-valued key referring to {} doubles", e[2]));
                }
                (GK::D, 0) => {
                    e[3] = (doubles.len() + s.upto(2000) as usize).min(65535) as u16;
                    bad = Some("double reference past the end".into());
                }
                (GK::D, 1) => {
                    e[1] = 0;
                    bad = Some("a double key holding an inline short".into());
                }
                (GK::D, _) => {
                    no_params = true;
                    bad = Some("double reference without parameters".into());
                }
                (GK::A, 0) => {
                    e[3] = (ascii.len() + s.upto(2000) as usize).min(65535) as u16;
                    e[2] = 1 + s.upto(60000) as u16;
                    bad = Some("text reference past the end".into());
                }
                (GK::A, 1) => {
                    e[1] = 0;
                    bad = Some("a text key holding an inline short".into());
                }
                (GK::A, _) => {
                    no_params = true;
                    bad = Some("text reference without parameters".into());
                }
                (GK::S, 0) => {
                    doubles.push(0x3ff0000000000000);
                    *e = [e[0], 34736, 1, doubles.len() as u16 - 1];
                    bad = Some("a short key holding a double".into());
                }
                (GK::S, _) => {
                    ascii.extend_from_slice(b"x|");
                    *e = [e[0], 34737, 2, ascii.len() as u16 - 2];
                    bad = Some("a short key holding text".into());
                }
            }
        }
    }
    // a value kept in some other tag
    let mut elsewhere: Option<(u16, bool)> = None;
    if bad.is_none() && s.chance(1, 12) {
        if let Some(id) = GEO.iter().map(|g| g.0).find(|g| !used.contains(g) && s.chance(1, 8)) {
            let loc = if s.bool() { *s.pick(&[34735u16, 1, 33550, 34738, 65535, 2]) } else { s.ubits(16) as u16 };
            if ![0, 34736, 34737].contains(&loc) {
                elsewhere = Some((id, loc == 34735));
                let at = s.us(0, keys.len());
                keys.insert(at, [id, loc, *s.pick(&[1u16, 1, 2, 0]), s.ubits(16) as u16]);
                head[3] += 1;
                cx.label("value in another tag");
            }
        }
    }
    let mut dir: Vec<u16> = head;
    dir.extend(keys.iter().flatten());
    dir.truncate(dir.len() - truncate);
    if truncate == 0 && s.chance(1, 12) {
        // only as many keys as the header says are there
        let n = s.us(1, 9);
        for i in 0..n {
            dir.push(if i % 4 == 0 { GEO[s.us(0, GEO.len() - 1)].0 } else { s.upto(5) as u16 });
        }
        cx.label("padding after the keys");
    }
    let mut ifd = minimal_ifd(3, 3);
    ifd.set(34735, Val::Short(dir.clone()));
    if !no_params {
        if !doubles.is_empty() {
            ifd.set(34736, Val::Double(doubles.clone()));
        }
        if !ascii.is_empty() || s.bool() {
            let mut a = ascii.clone();
            a.push(0);
            ifd.set(34737, Val::Ascii(a));
        } else if keys.iter().any(|k| k[1] == 34737 && GEO.iter().any(|g| g.0 == k[0])) {
            ifd.set(34737, Val::Ascii(vec![0]));
        }
    }
    cx.note(|| format!("keys {dir:?} doubles {doubles:x?} ascii {:?} {bad:?}", String::from_utf8_lossy(&ascii)));
    if kinds.iter().filter(|k| **k).count() >= 2 || bad.is_some() {
        cx.nontrivial();
    }
    if bad.is_some() {
        cx.label("malformed");
    }
    let fl = Flavour::gen(s);
    let got = if s.chance(2, 3) {
        let tags = tag_map(&ifd, &[]);
        sut("from_tags", || ImageFileDirectory::from_tags(tags, fl.endianness()))?
    } else {
        cx.label(fl.name());
        let m = Model { ifds: vec![ifd], blobs: vec![] };
        let lay = Layout::gen(s, &m, fl, false);
        let mem = Mem(Shared::new(write(&m, fl, &lay).file).arc());
        open_sync(&mem)?.map(|mut o| o.ifds.remove(0))
    };
    match (got, bad) {
        (Err(_), Some(_)) => Ok(()),
        (Ok(i), Some(b)) => Err(format!("{b}, but read as {:?}", i.geo_key_directory())),
        (Err(_), None) if elsewhere.is_some() => Ok(()),
        (Err(e), None) => Err(format!("reading a valid GeoKey directory failed: {e}")),
        (Ok(i), None) => {
            let directory = dir;
            let g = i.geo_key_directory().ok_or("no GeoKey directory was read")?;
            let f = geo_fields(g);
            for (id, name, _) in GEO {
                if elsewhere.map(|e| e.0) == Some(*id) {
                    if f[id].is_none() {
                        continue;
                    }
                    let k = keys.iter().find(|k| k[0] == *id).unwrap();
                    let v = directory.get(k[3] as usize).map(|v| format!("{v}"));
                    ensure(elsewhere.unwrap().1 && k[2] == 1 && f[id] == v, || {
                        format!("{name} (key {id}), kept in tag {}, is {:?}", k[1], f[id])
                    })?;
                    continue;
                }
                ensure(f[id] == exp[id], || format!("{name} (key {id}) is {:?}, stored {:?}", f[id], exp[id]))?;
            }
            let want = f[&3072].clone().or(f[&2048].clone());
            let got = g.epsg_code().map(|v| format!("{v}"));
            ensure(got == want, || format!("epsg_code() is {got:?}, expected {want:?}"))
        }
    }
}

// ---------- C19 ----------

pub const C19: Check = Check {
    id: "C19",
    f: c19,
    quick: 30_000_000,
    thorough: 400_000_000,
    level: "exploration",
    rule: "every case applies all 19 conversions to one value; non-trivial if the value is a list or at least one conversion succeeded",
    assumptions: &[
        "a rational counts as its numerator and denominator in integer lists, text as its characters' code points",
        "lists are flat, as files store them",
    ],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

pub fn gen_scalar(s: &mut Src, kind: u64) -> TagValue {
    match kind {
        0 => TagValue::Byte(s.ubits(8) as u8),
        1 => TagValue::Short(s.ubits(16) as u16),
        2 => TagValue::Unsigned(s.ubits(32) as u32),
        3 => TagValue::UnsignedBig(s.ubits(64)),
        4 => TagValue::SignedByte(s.ubits(8) as i8),
        5 => TagValue::SignedShort(s.ubits(16) as i16),
        6 => TagValue::Signed(s.ubits(32) as i32),
        7 => TagValue::SignedBig(s.ubits(64) as i64),
        8 => TagValue::Ifd(s.ubits(32) as u32),
        9 => TagValue::IfdBig(s.ubits(64)),
        10 => TagValue::Float(if s.bool() { s.ubits(24) as f32 } else { f32::from_bits(s.ubits(32) as u32) }),
        11 => TagValue::Double(if s.bool() { s.ubits(40) as f64 } else { f64::from_bits(s.ubits(64)) }),
        12 => TagValue::Rational(s.ubits(32) as u32, s.ubits(32) as u32),
        13 => TagValue::SRational(s.ubits(32) as i32, s.ubits(32) as i32),
        14 => TagValue::RationalBig(s.ubits(64), s.ubits(64)),
        15 => TagValue::SRationalBig(s.ubits(64) as i64, s.ubits(64) as i64),
        _ => {
            let n = s.us(0, 6);
            TagValue::Ascii((0..n).map(|_| *s.pick(&['a', '7', ' ', '|', 'é', '☃', '\u{10ffff}'])).collect())
        }
    }
}

/// Signedness and width of an integer value.
fn int_type(v: &TagValue) -> Option<(bool, u32, i128)> {
    Some(match v {
        TagValue::Byte(x) => (false, 8, *x as i128),
        TagValue::Short(x) => (false, 16, *x as i128),
        TagValue::Unsigned(x) => (false, 32, *x as i128),
        TagValue::UnsignedBig(x) => (false, 64, *x as i128),
        TagValue::Ifd(x) => (false, 32, *x as i128),
        TagValue::IfdBig(x) => (false, 64, *x as i128),
        TagValue::SignedByte(x) => (true, 8, *x as i128),
        TagValue::SignedShort(x) => (true, 16, *x as i128),
        TagValue::Signed(x) => (true, 32, *x as i128),
        TagValue::SignedBig(x) => (true, 64, *x as i128),
        _ => return None,
    })
}

fn is_offset(v: &TagValue) -> bool {
    matches!(v, TagValue::Ifd(_) | TagValue::IfdBig(_))
}

/// Does the scalar equal this integer?
fn scalar_is(v: &TagValue, x: i128) -> bool {
    match v {
        TagValue::Float(f) => f.is_finite() && f.fract() == 0.0 && *f as i128 == x,
        TagValue::Double(f) => f.is_finite() && f.fract() == 0.0 && *f as i128 == x,
        TagValue::Rational(n, d) => *d != 0 && x * *d as i128 == *n as i128,
        TagValue::SRational(n, d) => *d != 0 && x * *d as i128 == *n as i128,
        TagValue::Ascii(t) => t.trim().parse::<i128>() == Ok(x),
        TagValue::List(l) => l.len() == 1 && scalar_is(&l[0], x),
        v => int_type(v).map(|t| t.2 == x).unwrap_or(false),
    }
}

fn scalar_is_f(v: &TagValue, x: f64) -> bool {
    let eq = |a: f64| a.to_bits() == x.to_bits() || a.is_nan() && x.is_nan() || a == x && a != 0.0;
    match v {
        TagValue::Float(f) => eq(*f as f64),
        TagValue::Double(f) => eq(*f),
        TagValue::Rational(n, d) => eq(*n as f64 / *d as f64),
        TagValue::SRational(n, d) => eq(*n as f64 / *d as f64),
        TagValue::List(l) => l.len() == 1 && scalar_is_f(&l[0], x),
        v => int_type(v).map(|t| x.is_finite() && x as i128 == t.2 && x.fract() == 0.0).unwrap_or(false),
    }
}

/// The integers a value stands for in an integer list.
fn flat(v: &TagValue) -> Option<Vec<i128>> {
    Some(match v {
        TagValue::List(l) => {
            let mut o = vec![];
            for x in l {
                o.extend(flat(x)?);
            }
            o
        }
        TagValue::Rational(a, b) => vec![*a as i128, *b as i128],
        TagValue::SRational(a, b) => vec![*a as i128, *b as i128],
        TagValue::RationalBig(a, b) => vec![*a as i128, *b as i128],
        TagValue::SRationalBig(a, b) => vec![*a as i128, *b as i128],
        TagValue::Ascii(t) => t.chars().map(|c| c as u32 as i128).collect(),
        TagValue::Float(f) if f.is_finite() && f.fract() == 0.0 => vec![*f as i128],
        TagValue::Double(f) if f.is_finite() && f.fract() == 0.0 => vec![*f as i128],
        v => vec![int_type(v)?.2],
    })
}

fn c19(s: &mut Src, cx: &mut Cx) -> R {
    let v = if s.bool() {
        let kind = s.upto(16);
        gen_scalar(s, kind)
    } else {
        let n = if s.chance(1, 400) {
            s.us(300, 5000)
        } else if s.chance(1, 20) {
            s.us(0, 300)
        } else { s.us(0, 8) };
        let mixed = s.chance(1, 3);
        // mixed lists stay within one family half the time, so that widening must succeed
        let fam: &[u64] = *s.pick(&[&[0u64, 1, 2, 3][..], &[4, 5, 6, 7], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]]);
        let one = s.upto(16);
        let nested = s.chance(1, 20);
        TagValue::List(
            (0..n)
                .map(|_| {
                    let k = if mixed { *s.pick(fam) } else { one };
                    if nested && s.chance(1, 4) {
                        return TagValue::List((0..s.us(1, 3)).map(|_| gen_scalar(s, k)).collect());
                    }
                    gen_scalar(s, k)
                })
                .collect(),
        )
    };
    cx.note(|| tv_short(&v));
    let is_list = matches!(v, TagValue::List(_));
    let elems: Vec<&TagValue> = match &v {
        TagValue::List(l) => l.iter().collect(),
        x => vec![x],
    };
    let mut oks = 0;
    macro_rules! scalar {
        ($m:ident, $signed:expr, $bits:expr) => {{
            let c = v.clone();
            let must = int_type(&v)
                .map(|(sg, w, _)| sg == $signed && w <= $bits && !(is_offset(&v) && $bits < 32))
                .unwrap_or(false);
            match sut(stringify!($m), || c.$m())? {
                Ok(x) => {
                    oks += 1;
                    ensure(scalar_is(&v, x as i128), || format!("{} of {} gave {x}", stringify!($m), tv_short(&v)))?;
                }
                Err(e) => ensure(!must, || format!("{} refused {}: {e}", stringify!($m), tv_short(&v)))?,
            }
        }};
    }
    scalar!(into_u8, false, 8);
    scalar!(into_u16, false, 16);
    scalar!(into_u32, false, 32);
    scalar!(into_u64, false, 64);
    scalar!(into_i8, true, 8);
    scalar!(into_i16, true, 16);
    scalar!(into_i32, true, 32);
    scalar!(into_i64, true, 64);
    macro_rules! vecs {
        ($m:ident, $signed:expr, $bits:expr) => {{
            let c = v.clone();
            let must = elems.iter().all(|e| {
                int_type(e)
                    .map(|(sg, w, _)| sg == $signed && w <= $bits && !(is_offset(e) && $bits < 32))
                    .unwrap_or(false)
            });
            match sut(stringify!($m), || c.$m())? {
                Ok(x) => {
                    oks += 1;
                    let x: Vec<i128> = x.into_iter().map(|x| x as i128).collect();
                    let want = flat(&v);
                    ensure(Some(&x) == want.as_ref(), || {
                        format!("{} of {} gave {}", stringify!($m), tv_short(&v), cut(&format!("{x:?}")))
                    })?;
                }
                Err(e) => ensure(!must, || format!("{} refused {}: {e}", stringify!($m), tv_short(&v)))?,
            }
        }};
    }
    vecs!(into_u8_vec, false, 8);
    vecs!(into_u16_vec, false, 16);
    vecs!(into_u32_vec, false, 32);
    vecs!(into_u64_vec, false, 64);
    vecs!(into_i32_vec, true, 32);
    vecs!(into_i64_vec, true, 64);
    // floats
    let c = v.clone();
    match sut("into_f32", || c.into_f32())? {
        Ok(x) => {
            oks += 1;
            ensure(scalar_is_f(&v, x as f64), || format!("into_f32 of {} gave {x}", tv_short(&v)))?;
            if let TagValue::Float(f) = &v {
                ensure(f.to_bits() == x.to_bits(), || format!("into_f32 of {} gave {x}", tv_short(&v)))?;
            }
        }
        Err(e) => ensure(!matches!(v, TagValue::Float(_)), || format!("into_f32 refused {}: {e}", tv_short(&v)))?,
    }
    let c = v.clone();
    match sut("into_f64", || c.into_f64())? {
        Ok(x) => {
            oks += 1;
            ensure(scalar_is_f(&v, x), || format!("into_f64 of {} gave {x}", tv_short(&v)))?;
            if let TagValue::Double(f) = &v {
                ensure(f.to_bits() == x.to_bits(), || format!("into_f64 of {} gave {x}", tv_short(&v)))?;
            }
        }
        Err(e) => ensure(!matches!(v, TagValue::Double(_)), || format!("into_f64 refused {}: {e}", tv_short(&v)))?,
    }
    let c = v.clone();
    match sut("into_f32_vec", || c.into_f32_vec())? {
        Ok(x) => {
            oks += 1;
            ensure(
                x.len() == elems.len() && x.iter().zip(&elems).all(|(x, e)| match e {
                    TagValue::Float(f) => f.to_bits() == x.to_bits(),
                    e => scalar_is_f(e, *x as f64),
                }),
                || format!("into_f32_vec of {} gave {}", tv_short(&v), cut(&format!("{x:?}"))),
            )?;
        }
        Err(e) => ensure(!elems.iter().all(|e| matches!(e, TagValue::Float(_))), || {
            format!("into_f32_vec refused {}: {e}", tv_short(&v))
        })?,
    }
    let c = v.clone();
    match sut("into_f64_vec", || c.into_f64_vec())? {
        Ok(x) => {
            oks += 1;
            ensure(
                x.len() == elems.len() && x.iter().zip(&elems).all(|(x, e)| match e {
                    TagValue::Double(f) => f.to_bits() == x.to_bits(),
                    e => scalar_is_f(e, *x),
                }),
                || format!("into_f64_vec of {} gave {}", tv_short(&v), cut(&format!("{x:?}"))),
            )?;
        }
        Err(e) => ensure(!elems.iter().all(|e| matches!(e, TagValue::Double(_))), || {
            format!("into_f64_vec refused {}: {e}", tv_short(&v))
        })?,
    }
    let c = v.clone();
    match (sut("into_string", || c.into_string())?, &v) {
        (Ok(x), TagValue::Ascii(t)) => {
            oks += 1;
            ensure(&x == t, || format!("into_string of {t:?} gave {x:?}"))?
        }
        (Ok(x), v) => {
            let same = matches!(v, TagValue::List(l) if l.len() == 1 && matches!(&l[0], TagValue::Ascii(t) if *t == x));
            ensure(same, || format!("into_string of {} gave {x:?}", tv_short(v)))?
        }
        (Err(e), TagValue::Ascii(t)) => return Err(format!("into_string refused {t:?}: {e}")),
        (Err(_), _) => {}
    }
    if is_list || oks > 0 {
        cx.nontrivial();
    }
    cx.label(if is_list { "list" } else { "scalar" });
    Ok(())
}

// ---------- C21 ----------

pub const C21: Check = Check {
    id: "C21",
    f: c21,
    quick: 65_536,
    thorough: 65_536,
    level: "exhaustive_enumeration",
    rule: "one case per 16-bit code, each through all nine enumerations; every code is non-trivial: it checks the assigned name or that it is refused/unknown, the way back, and inequality with its 16 bit-flip neighbours and all assigned codes",
    assumptions: &["the code tables in the harness, transcribed from the TIFF 6.0, BigTIFF, GeoTIFF and libtiff registries"],
    exhaustive: true,
    alloc_limit: NO_LIMIT,
};

pub const PHOTOMETRIC: &[(u16, &str)] = &[
    (0, "WhiteIsZero"), (1, "BlackIsZero"), (2, "RGB"), (3, "RGBPalette"), (4, "TransparencyMask"),
    (5, "CMYK"), (6, "YCbCr"), (8, "CIELab"),
];
pub const COMPRESSION: &[(u16, &str)] = &[
    (1, "None"), (2, "Huffman"), (3, "Fax3"), (4, "Fax4"), (5, "LZW"), (6, "JPEG"), (7, "ModernJPEG"),
    (8, "Deflate"), (32773, "PackBits"), (32946, "OldDeflate"), (34712, "JPEG2k"), (34887, "LERC"),
    (34925, "LZMA"), (50000, "ZSTD"), (50001, "WebP"),
];
pub const PLANAR: &[(u16, &str)] = &[(1, "Chunky"), (2, "Planar")];
pub const PREDICTOR: &[(u16, &str)] = &[(1, "None"), (2, "Horizontal"), (3, "FloatingPoint")];
pub const RES_UNIT: &[(u16, &str)] = &[(1, "None"), (2, "Inch"), (3, "Centimeter")];
pub const EXTRA: &[(u16, &str)] = &[(0, "Unspecified"), (1, "AssociatedAlpha"), (2, "UnassociatedAlpha")];
pub const SAMPLE_FORMAT: &[(u16, &str)] = &[(1, "Uint"), (2, "Int"), (3, "Float"), (4, "Void")];
const TYPE: &[(u16, &str)] = &[
    (1, "BYTE"), (2, "ASCII"), (3, "SHORT"), (4, "LONG"), (5, "RATIONAL"), (6, "SBYTE"),
    (7, "UNDEFINED"), (8, "SSHORT"), (9, "SLONG"), (10, "SRATIONAL"), (11, "FLOAT"), (12, "DOUBLE"),
    (13, "IFD"), (16, "LONG8"), (17, "SLONG8"), (18, "IFD8"),
];
const TAG: &[(u16, &str)] = &[
    (254, "NewSubfileType"), (255, "SubfileType"), (256, "ImageWidth"), (257, "ImageLength"),
    (258, "BitsPerSample"), (259, "Compression"), (262, "PhotometricInterpretation"),
    (263, "Threshholding"), (264, "CellWidth"), (265, "CellLength"), (266, "FillOrder"),
    (270, "ImageDescription"), (271, "Make"), (272, "Model"), (273, "StripOffsets"),
    (274, "Orientation"), (277, "SamplesPerPixel"), (278, "RowsPerStrip"), (279, "StripByteCounts"),
    (280, "MinSampleValue"), (281, "MaxSampleValue"), (282, "XResolution"), (283, "YResolution"),
    (284, "PlanarConfiguration"), (288, "FreeOffsets"), (289, "FreeByteCounts"),
    (290, "GrayResponseUnit"), (291, "GrayResponseCurve"), (296, "ResolutionUnit"),
    (305, "Software"), (306, "DateTime"), (315, "Artist"), (316, "HostComputer"),
    (317, "Predictor"), (320, "ColorMap"), (322, "TileWidth"), (323, "TileLength"),
    (324, "TileOffsets"), (325, "TileByteCounts"), (338, "ExtraSamples"), (339, "SampleFormat"),
    (340, "SMinSampleValue"), (341, "SMaxSampleValue"), (347, "JPEGTables"), (33432, "Copyright"),
    (33550, "ModelPixelScale"), (33922, "ModelTiepoint"), (34264, "ModelTransformation"),
    (34735, "GeoKeyDirectory"), (34736, "GeoDoubleParams"), (34737, "GeoAsciiParams"),
    (42112, "GdalMetadata"), (42113, "GdalNodata"), (50674, "LercParameters"),
];

fn c21(s: &mut Src, cx: &mut Cx) -> R {
    let code = s.index(65_536) as u16;
    cx.nontrivial();
    let mut assigned = vec![];
    macro_rules! common {
        ($t:ident, $table:expr) => {{
            let name = $table.iter().find(|x| x.0 == code).map(|x| x.1);
            let got = sut("from_u16", || $t::from_u16(code))?;
            let gname = got.map(|g| format!("{g:?}"));
            ensure(gname.as_deref() == name, || {
                format!("{}::from_u16({code}) is {gname:?}, the specification assigns {name:?}", stringify!($t))
            })?;
            if let Some(g) = got {
                assigned.push(stringify!($t));
                ensure(g.to_u16() == code, || format!("{}::{g:?} converts back to {} instead of {code}", stringify!($t), g.to_u16()))?;
                for (other, _) in $table {
                    if *other != code {
                        ensure($t::from_u16(*other) != Some(g), || format!("codes {code} and {other} are equal as {}", stringify!($t)))?;
                    }
                }
            }
            name
        }};
    }
    macro_rules! open {
        ($t:ident, $table:expr) => {{
            let name = common!($t, $table);
            let g = sut("from_u16_exhaustive", || $t::from_u16_exhaustive(code))?;
            let want = name.map(|n| n.to_string()).unwrap_or_else(|| format!("Unknown({code})"));
            ensure(format!("{g:?}") == want, || format!("{}::from_u16_exhaustive({code}) is {g:?}, expected {want}", stringify!($t)))?;
            ensure(g.to_u16() == code, || format!("{}::{g:?} converts back to {} instead of {code}", stringify!($t), g.to_u16()))?;
            ensure(g == $t::from_u16_exhaustive(code), || format!("{}::{g:?} is not equal to itself", stringify!($t)))?;
            let others = (0..16).map(|k| code ^ (1 << k)).chain($table.iter().map(|x| x.0));
            for o in others {
                if o != code {
                    ensure($t::from_u16_exhaustive(o) != g, || format!("codes {code} and {o} are equal as {}", stringify!($t)))?;
                }
            }
        }};
    }
    open!(Tag, TAG);
    open!(Compression, COMPRESSION);
    open!(SampleFormat, SAMPLE_FORMAT);
    common!(Type, TYPE);
    common!(PhotometricInterpretation, PHOTOMETRIC);
    common!(PlanarConfiguration, PLANAR);
    common!(Predictor, PREDICTOR);
    common!(ResolutionUnit, RES_UNIT);
    common!(ExtraSamples, EXTRA);
    cx.note(|| format!("code {code}: assigned in {assigned:?}"));
    cx.label(if assigned.is_empty() { "unassigned code" } else { "assigned code" });
    Ok(())
}
