//! C25: the Python bindings, compiled from /repo/python/src against a small stand-in for
//! PyO3 and run inside a real CPython, give the same as the Rust library.
use std::collections::BTreeMap;
use std::sync::{Arc, OnceLock};

use async_tiff::decoder::{Decoder, DecoderRegistry};
use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::geo::GeoKeyDirectory;
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::TiffMetadataReader;
use async_tiff::reader::Endianness;
use async_tiff::tags::{Compression, PhotometricInterpretation};
use async_tiff::{Array, CompressedBytes, ImageFileDirectory, TagValue, TileByteRange};
use bytes::Bytes;
use pyo3::types::{PyBytes, PyDict, PyModule, PyTuple};
use pyo3::{ffi, Bound, IntoPyObjectExt, Py, PyAny, PyErr, PyResult, Python};

use super::*;
use crate::io::{Fault, MemBatch, Req, Shared};

pub const C25: Check = Check {
    id: "C25",
    f: c25,
    quick: 30_000,
    thorough: 400_000,
    level: "exploration",
    rule: "non-trivial if at least one directory, tile, array or decoder call was compared with the Rust library's own result",
    assumptions: &[
        "PyO3, pyo3-bytes, pyo3-async-runtimes, pyo3-object_store and tokio-rayon are replaced by stand-ins (harness/py) over the real CPython 3.12: the conversion, argument and calling rules are theirs",
        "a future handed to Python has finished when it is awaited, so futures in flight at the same time are not explored",
        "values of the types IFD and IFD8 among other_tags are refused by the bindings (RuntimeError), as they say",
    ],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

// ---------- the interpreter ----------

const HELPERS: &str = r#"
import sys
import async_tiff, async_tiff.enums as enums

class Pause:
    def __await__(self):
        yield

class Store:
    "An obspec store over bytes, with a log and planned faults."
    def __init__(self, data, faults, pause, kind):
        self.data, self.faults, self.pause, self.kind = data, faults, pause, kind
        self.log, self.served, self.paths = [], 0, set()
    def serve(self, start, end):
        k = self.served
        self.served += 1
        f = self.faults.get(k)
        if f is not None and f < 0:
            raise OSError("planned")
        b = self.data[start:end]
        if f is not None:
            b = b[:f]
        return (bytes, bytearray, memoryview)[self.kind](b)
    async def get_range_async(self, path, *, start, end=None, length=None):
        assert length is None
        self.paths.add(path)
        self.log.append((start, end))
        for _ in range(self.pause):
            await Pause()
        return self.serve(start, end)
    async def get_ranges_async(self, path, *, starts, ends=None, lengths=None):
        assert lengths is None and len(starts) == len(ends)
        self.paths.add(path)
        self.log.extend(zip(starts, ends))
        for _ in range(self.pause):
            await Pause()
        return [self.serve(a, b) for a, b in zip(starts, ends)]

class RustStore:
    def __init__(self, n):
        self.vh_store = n

def run(awaitable):
    it = awaitable.__await__()
    while True:
        try:
            next(it)
        except StopIteration as e:
            return e.value

class Codec:
    "A decoder given by Python: the bytes xor a key, or a failure."
    def __init__(self, key, mode):
        self.key, self.mode, self.seen = key, mode, []
    def __call__(self, buffer):
        b = bytes(buffer)
        self.seen.append(b)
        if self.mode == 1:
            raise ValueError("planned")
        if self.mode == 2:
            return "text"
        out = bytes(x ^ self.key for x in b)
        return bytearray(out) if self.mode == 3 else out

KEEP = []
def view(x):
    before = sys.getrefcount(x)
    m = memoryview(x)
    KEEP.append(x)
    try:
        return view_of(m)
    finally:
        m.release()
        if sys.getrefcount(x) == before + 1:
            KEEP.pop()
        else:
            # keep it from being freed under our feet
            KEEP.extend([x] * 10)
            raise AssertionError("a buffer taken and released leaves the object's reference count changed")
def view_of(m):
    return (m.format, m.itemsize, m.nbytes, m.ndim, tuple(m.shape), tuple(m.strides), m.readonly, m.tobytes())

def get(o, n):
    return getattr(o, n)
def item(o, n):
    return o[n]
def as_dict(o):
    return dict(o)
def keys(o):
    return (o.keys(), list(iter(o)))
def equal(a, b):
    return (a == b, a != b)
def call(f, *a):
    return f(*a)
def acall(f, *a):
    return run(f(*a))
def acallk(f, a, k):
    return run(f(*a, **k))
def callk(f, a, k):
    return f(*a, **k)
def member(cls, code):
    try:
        return getattr(enums, cls)(code)
    except ValueError:
        return code
def by_name(cls, name):
    return int(getattr(getattr(enums, cls), name))
"#;

const OBSPEC: &str = "
from typing import Protocol
class GetRangeAsync(Protocol): pass
class GetRangesAsync(Protocol): pass
";

fn exec<'py>(py: Python<'py>, code: &str, name: &str) -> PyResult<Bound<'py, PyModule>> {
    let m = PyModule::new(py, name)?;
    let c = std::ffi::CString::new(code).unwrap();
    let n = std::ffi::CString::new(name).unwrap();
    unsafe {
        let d = ffi::PyModule_GetDict(m.as_ptr());
        ffi::PyDict_SetItemString(d, c"__builtins__".as_ptr(), ffi::PyEval_GetBuiltins());
        let co = py.owned(ffi::Py_CompileString(c.as_ptr(), n.as_ptr(), 257))?;
        py.owned(ffi::PyEval_EvalCode(co.as_ptr(), d, d))?;
    }
    Ok(m)
}

fn init() -> Result<Py<PyModule>, String> {
    let package = std::env::var("VH_PYTHON").unwrap_or_else(|_| "/repo/python/python".into());
    unsafe {
        ffi::Py_InitializeEx(0);
        let py = Python::assume_attached();
        let r = (|| -> PyResult<Py<PyModule>> {
            let sys = py.import("sys")?;
            sys.setattr("dont_write_bytecode", true)?;
            sys.getattr("path")?.call_method1("insert", (0usize, package))?;
            // the debug build's warning is not of interest
            py.import("warnings")?.call_method1("simplefilter", ("ignore",))?;
            let modules = sys.getattr("modules")?;
            modules.call_method1("__setitem__", ("obspec", exec(py, OBSPEC, "obspec")?))?;
            let m = PyModule::new(py, "async_tiff._async_tiff")?;
            _async_tiff::vh_module::init(py, &m)?;
            modules.call_method1("__setitem__", ("async_tiff._async_tiff", m))?;
            exec(py, HELPERS, "vh_helpers").map(Bound::unbind)
        })();
        let r = r.map_err(|e| e.to_string());
        ffi::PyEval_SaveThread();
        r
    }
}

fn helpers() -> Result<&'static Py<PyModule>, String> {
    static H: OnceLock<Result<Py<PyModule>, String>> = OnceLock::new();
    H.get_or_init(init).as_ref().map_err(|e| format!("the Python package cannot be imported: {e}"))
}

/// Calls made from a case.
struct Vm<'py> {
    py: Python<'py>,
    h: Bound<'py, PyModule>,
}

type Obj<'py> = Bound<'py, PyAny>;

impl<'py> Vm<'py> {
    /// Call a helper. Ok(Err) is an ordinary Python exception; a panic is a failure.
    fn try_call(&self, f: &str, args: Vec<Obj<'py>>) -> Result<Result<Obj<'py>, String>, String> {
        let t = PyTuple::new(self.py, args).map_err(|e| format!("HARNESS:{e}"))?;
        let f = self.h.getattr(f).map_err(|e| format!("HARNESS:{e}"))?;
        match f.call1(t) {
            Ok(v) => Ok(Ok(v)),
            Err(e) => {
                let m = e.to_string();
                if m.starts_with("PanicException") {
                    return Err(format!("a panic came out of the Python API: {}", cut(&m)));
                }
                Ok(Err(m))
            }
        }
    }
    fn call(&self, f: &str, args: Vec<Obj<'py>>) -> Result<Obj<'py>, String> {
        self.try_call(f, args)?.map_err(|e| format!("unexpected exception: {}", cut(&e)))
    }
    fn o(&self, v: impl IntoPyObjectExt<'py>) -> Obj<'py> {
        v.into_bound_py_any(self.py).expect("conversion")
    }
    fn bytes(&self, b: &[u8]) -> Obj<'py> {
        PyBytes::new(self.py, b).into_any()
    }
    fn attr(&self, o: &Obj<'py>, n: &str) -> Result<Obj<'py>, String> {
        self.call("get", vec![o.clone(), self.o(n)])
    }
    fn class(&self, n: &str) -> Result<Obj<'py>, String> {
        let m = self.py.import("async_tiff").map_err(|e| format!("HARNESS:{e}"))?;
        m.getattr(n).map_err(|e| format!("async_tiff.{n} is missing: {e}"))
    }
    fn kw(&self, k: Vec<(&str, Obj<'py>)>) -> Obj<'py> {
        let d = PyDict::new(self.py);
        for (k, v) in k {
            d.set_item(k, v).unwrap();
        }
        d.into_any()
    }
    fn tup(&self, v: Vec<Obj<'py>>) -> Obj<'py> {
        PyTuple::new(self.py, v).unwrap().into_any()
    }
}

/// A Python value, by structure.
#[derive(Clone, Debug, PartialEq)]
enum V {
    None,
    Bool(bool),
    Int(i128),
    F(u64),
    S(String),
    B(Vec<u8>),
    L(Vec<V>),
    T(Vec<V>),
    D(BTreeMap<String, V>),
    /// class, member, value
    Enum(String, String, i128),
    Obj(String),
}

fn f(x: f64) -> V {
    V::F(if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() })
}

fn v_of(o: &Obj<'_>) -> Result<V, String> {
    let e = |e: PyErr| format!("HARNESS:{e}");
    let is = |t: *mut ffi::PyTypeObject| o.is_kind(t);
    if o.is_none() {
        return Ok(V::None);
    }
    if is(&raw mut ffi::PyBool_Type) {
        return Ok(V::Bool(o.extract().map_err(e)?));
    }
    if is(&raw mut ffi::PyLong_Type) {
        let n = match o.extract::<u64>() {
            Ok(n) => n as i128,
            Err(_) => o.extract::<i64>().map_err(e)? as i128,
        };
        let t = o.get_type_name();
        if t == "int" {
            return Ok(V::Int(n));
        }
        let name = o.getattr("name").map_err(e)?.to_string();
        return Ok(V::Enum(t, name, n));
    }
    if is(&raw mut ffi::PyFloat_Type) {
        return Ok(f(o.extract().map_err(e)?));
    }
    if is(&raw mut ffi::PyUnicode_Type) {
        return Ok(V::S(o.extract().map_err(e)?));
    }
    if is(&raw mut ffi::PyBytes_Type) {
        return Ok(V::B(o.cast::<PyBytes>().map_err(e)?.as_bytes().to_vec()));
    }
    if is(&raw mut ffi::PyList_Type) || is(&raw mut ffi::PyTuple_Type) {
        let v = o.iter_vec().map_err(e)?.iter().map(v_of).collect::<Result<Vec<_>, _>>()?;
        return Ok(if is(&raw mut ffi::PyList_Type) { V::L(v) } else { V::T(v) });
    }
    if is(&raw mut ffi::PyDict_Type) {
        let mut m = BTreeMap::new();
        for (k, v) in o.cast::<PyDict>().map_err(e)?.items_vec() {
            m.insert(format!("{:?}", v_of(&k)?), v_of(&v)?);
        }
        return Ok(V::D(m));
    }
    Ok(V::Obj(o.get_type_name()))
}

fn int(x: impl Into<i128>) -> V {
    V::Int(x.into())
}
fn opt<T>(x: Option<T>, g: impl FnOnce(T) -> V) -> V {
    x.map(g).unwrap_or(V::None)
}
fn ints<T: Copy + Into<i128>>(x: &[T]) -> V {
    V::L(x.iter().map(|v| int(*v)).collect())
}
fn floats(x: &[f64]) -> V {
    V::L(x.iter().map(|v| f(*v)).collect())
}
fn text(x: &str) -> V {
    V::S(x.to_string())
}

/// The members the Python package defines, by the TIFF specification.
const ENUMS: &[(&str, &[(&str, u16)])] = &[
    ("Compression", &[
        ("Uncompressed", 1), ("Huffman", 2), ("Fax3", 3), ("Fax4", 4), ("LZW", 5), ("JPEG", 6), ("ModernJPEG", 7),
        ("Deflate", 8), ("OldDeflate", 32946), ("PackBits", 32773), ("WebP", 50001), ("LZMA", 34925),
        ("JPEG2k", 34712), ("ZSTD", 50000),
    ]),
    ("ExtraSamples", &[("Unspecified", 0), ("AssociatedAlpha", 1), ("UnassociatedAlpha", 2)]),
    ("PhotometricInterpretation", &[
        ("WhiteIsZero", 0), ("BlackIsZero", 1), ("RGB", 2), ("RGBPalette", 3), ("TransparencyMask", 4), ("CMYK", 5),
        ("YCbCr", 6), ("CIELab", 8),
    ]),
    ("PlanarConfiguration", &[("Chunky", 1), ("Planar", 2)]),
    ("Predictor", &[("Unknown", 1), ("Horizontal", 2), ("FloatingPoint", 3)]),
    ("ResolutionUnit", &[("Unknown", 1), ("Inch", 2), ("Centimeter", 3)]),
    ("SampleFormat", &[("Uint", 1), ("Int", 2), ("Float", 3), ("Void", 4)]),
];

fn en(class: &str, code: u16) -> V {
    let t = ENUMS.iter().find(|e| e.0 == class).unwrap();
    match t.1.iter().find(|m| m.1 == code) {
        Some((n, _)) => V::Enum(class.into(), n.to_string(), code as i128),
        None => V::Int(code as i128),
    }
}

/// Equal, where a code that has no member in the table may have one of a name of its own.
fn same(got: &V, want: &V) -> bool {
    match (got, want) {
        (V::Enum(c, _, a), V::Int(b)) => a == b && ENUMS.iter().any(|e| e.0 == c),
        (V::L(a), V::L(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        _ => got == want,
    }
}

fn tag_v(v: &TagValue) -> Option<V> {
    use TagValue::*;
    Some(match v {
        Byte(x) => int(*x),
        Short(x) => int(*x),
        SignedByte(x) => int(*x),
        SignedShort(x) => int(*x),
        Signed(x) => int(*x),
        SignedBig(x) => int(*x),
        Unsigned(x) => int(*x),
        UnsignedBig(x) => int(*x),
        Float(x) => f(*x as f64),
        Double(x) => f(*x),
        List(l) => V::L(l.iter().map(tag_v).collect::<Option<_>>()?),
        Rational(a, b) => V::T(vec![int(*a), int(*b)]),
        RationalBig(a, b) => V::T(vec![int(*a), int(*b)]),
        SRational(a, b) => V::T(vec![int(*a), int(*b)]),
        SRationalBig(a, b) => V::T(vec![int(*a), int(*b)]),
        Ascii(s) => text(s),
        _ => return None,
    })
}

/// What the attributes of a directory should be. `None` for the ones the bindings refuse.
fn want_ifd(i: &ImageFileDirectory) -> Vec<(&'static str, Option<V>)> {
    let other = i
        .other_tags()
        .iter()
        .map(|(k, v)| tag_v(v).map(|v| (format!("{:?}", int(k.to_u16())), v)))
        .collect::<Option<BTreeMap<_, _>>>()
        .map(V::D);
    let o: Vec<(&'static str, V)> = vec![
        ("new_subfile_type", opt(i.new_subfile_type(), int)),
        ("image_width", int(i.image_width())),
        ("image_height", int(i.image_height())),
        ("bits_per_sample", ints(i.bits_per_sample())),
        ("compression", en("Compression", i.compression().to_u16())),
        ("photometric_interpretation", en("PhotometricInterpretation", i.photometric_interpretation().to_u16())),
        ("document_name", opt(i.document_name(), text)),
        ("image_description", opt(i.image_description(), text)),
        ("strip_offsets", opt(i.strip_offsets(), ints)),
        ("orientation", opt(i.orientation(), int)),
        ("samples_per_pixel", int(i.samples_per_pixel())),
        ("rows_per_strip", opt(i.rows_per_strip(), int)),
        ("strip_byte_counts", opt(i.strip_byte_counts(), ints)),
        ("min_sample_value", opt(i.min_sample_value(), ints)),
        ("max_sample_value", opt(i.max_sample_value(), ints)),
        ("x_resolution", opt(i.x_resolution(), f)),
        ("y_resolution", opt(i.y_resolution(), f)),
        ("planar_configuration", en("PlanarConfiguration", i.planar_configuration().to_u16())),
        ("resolution_unit", opt(i.resolution_unit(), |x| en("ResolutionUnit", x.to_u16()))),
        ("software", opt(i.software(), text)),
        ("date_time", opt(i.date_time(), text)),
        ("artist", opt(i.artist(), text)),
        ("host_computer", opt(i.host_computer(), text)),
        ("predictor", opt(i.predictor(), |x| en("Predictor", x.to_u16()))),
        ("tile_width", opt(i.tile_width(), int)),
        ("tile_height", opt(i.tile_height(), int)),
        ("tile_offsets", opt(i.tile_offsets(), ints)),
        ("tile_byte_counts", opt(i.tile_byte_counts(), ints)),
        (
            "extra_samples",
            opt(i.extra_samples(), |x| V::L(x.iter().map(|s| en("ExtraSamples", s.to_u16())).collect())),
        ),
        ("sample_format", V::L(i.sample_format().iter().map(|s| en("SampleFormat", s.to_u16())).collect())),
        ("jpeg_tables", opt(i.jpeg_tables(), |x| V::B(x.to_vec()))),
        ("copyright", opt(i.copyright(), text)),
        ("geo_key_directory", opt(i.geo_key_directory(), |_| V::Obj("GeoKeyDirectory".into()))),
        ("model_pixel_scale", opt(i.model_pixel_scale(), floats)),
        ("model_tiepoint", opt(i.model_tiepoint(), floats)),
        ("model_transformation", opt(i.model_transformation(), floats)),
        ("gdal_nodata", opt(i.gdal_nodata(), text)),
        ("gdal_metadata", opt(i.gdal_metadata(), text)),
        ("lerc_parameters", opt(i.lerc_parameters(), ints)),
        ("colormap", opt(i.colormap(), |_| V::Obj("Colormap".into()))),
    ];
    let mut o: Vec<(&'static str, Option<V>)> = o.into_iter().map(|(n, v)| (n, Some(v))).collect();
    o.push(("other_tags", other));
    o
}

macro_rules! geo {
    ($g:ident: $($k:ident $($f:ident)*;)*) => {
        vec![$($( (stringify!($f), geo!(@ $k $g.$f)), )*)*]
    };
    (@ S $e:expr) => { opt($e, int) };
    (@ D $e:expr) => { opt($e, f) };
    (@ A $e:expr) => { opt($e.as_deref(), text) };
}

fn want_geo(g: &GeoKeyDirectory) -> Vec<(&'static str, V)> {
    geo!(g:
        S model_type raster_type geographic_type geog_geodetic_datum geog_prime_meridian geog_linear_units
          geog_angular_units geog_ellipsoid geog_azimuth_units projected_type projection proj_coord_trans
          proj_linear_units vertical vertical_datum vertical_units;
        A citation geog_citation proj_citation vertical_citation;
        D geog_linear_unit_size geog_angular_unit_size geog_semi_major_axis geog_semi_minor_axis geog_inv_flattening
          geog_prime_meridian_long proj_linear_unit_size proj_std_parallel1 proj_std_parallel2 proj_nat_origin_long
          proj_nat_origin_lat proj_false_easting proj_false_northing proj_false_origin_long proj_false_origin_lat
          proj_false_origin_easting proj_false_origin_northing proj_center_long proj_center_lat proj_center_easting
          proj_center_northing proj_scale_at_nat_origin proj_scale_at_center proj_azimuth_angle
          proj_straight_vert_pole_long;
    )
}

fn strings(v: &V) -> Option<Vec<String>> {
    match v {
        V::L(l) | V::T(l) => l.iter().map(|x| if let V::S(s) = x { Some(s.clone()) } else { None }).collect(),
        _ => None,
    }
}

/// `keys()`, iteration and `dict()` of a mapping give exactly the present attributes.
fn check_mapping<'py>(vm: &Vm<'py>, what: &str, o: &Obj<'py>, want: &[(&'static str, V)], complete: bool) -> R {
    let mut expect: Vec<String> = want.iter().filter(|(_, v)| *v != V::None).map(|(n, _)| n.to_string()).collect();
    expect.sort();
    let V::T(k) = v_of(&vm.call("keys", vec![o.clone()])?)? else { return Err("HARNESS:keys".into()) };
    for k in &k {
        let mut got = strings(k).ok_or_else(|| format!("{what}: keys are {k:?}"))?;
        got.sort();
        ensure(got == expect, || {
            let d: Vec<&String> = got.iter().filter(|x| !expect.contains(x)).chain(expect.iter().filter(|x| !got.contains(x))).collect();
            format!("{what}: the keys differ from the present attributes by {d:?}")
        })?;
    }
    let r = vm.try_call("item", vec![o.clone(), vm.o("no_such_thing")])?;
    ensure(matches!(&r, Err(e) if e.starts_with("KeyError")), || format!("{what}[\"no_such_thing\"] is not a KeyError"))?;
    if complete {
        let V::D(d) = v_of(&vm.call("as_dict", vec![o.clone()])?)? else { return Err("HARNESS:dict".into()) };
        for (n, w) in want {
            let got = d.get(&format!("{:?}", text(n))).unwrap_or(&V::None);
            ensure(same(got, w), || format!("dict of {what}: {n} is {}, expected {}", show(got), show(w)))?;
        }
    }
    Ok(())
}

fn show(v: &V) -> String {
    cut(&format!("{v:?}"))
}

fn check_ifd<'py>(vm: &Vm<'py>, what: &str, o: &Obj<'py>, i: &ImageFileDirectory) -> R {
    let want = want_ifd(i);
    for (n, w) in &want {
        for how in ["get", "item"] {
            let got = vm.try_call(how, vec![o.clone(), vm.o(*n)])?;
            let Some(w) = w else { continue };
            let got = got.map_err(|e| format!("{what}: {how} {n} raised {}", cut(&e)))?;
            let g = v_of(&got)?;
            ensure(same(&g, w), || format!("{what}: {how} {n} is {}, expected {}", show(&g), show(w)))?;
            if *n == "geo_key_directory" {
                if let Some(gk) = i.geo_key_directory() {
                    let wg = want_geo(gk);
                    for (n, w) in &wg {
                        let g = v_of(&vm.attr(&got, n)?)?;
                        ensure(g == *w, || format!("{what}: GeoKey {n} is {}, expected {}", show(&g), show(w)))?;
                        let g = v_of(&vm.call("item", vec![got.clone(), vm.o(*n)])?)?;
                        ensure(g == *w, || format!("{what}: GeoKey item {n} is {}, expected {}", show(&g), show(w)))?;
                    }
                    check_mapping(vm, "the GeoKey directory", &got, &wg, true)?;
                }
            }
            if *n == "colormap" {
                if let Some(c) = i.colormap() {
                    check_colormap(vm, &got, c)?;
                }
            }
        }
    }
    let complete = want.iter().all(|w| w.1.is_some());
    let flat: Vec<(&'static str, V)> = want.into_iter().map(|(n, w)| (n, w.unwrap_or(V::Bool(true)))).collect();
    check_mapping(vm, what, o, &flat, complete)?;
    let g = v_of(&vm.attr(o, "tile_count")?)?;
    let w = opt(i.tile_count(), |(x, y)| V::T(vec![int(x as u64), int(y as u64)]));
    ensure(g == w, || format!("{what}: tile_count is {}, expected {}", show(&g), show(&w)))?;
    ensure(vm.try_call("item", vec![o.clone(), vm.o("no_such_property")])?.is_err(), || {
        format!("{what}: an unknown property was accepted")
    })
}

/// A colormap is a buffer of N rows (R, G, B) over the tag's plane order.
fn check_colormap<'py>(vm: &Vm<'py>, o: &Obj<'py>, c: &[u16]) -> R {
    if c.len() % 3 != 0 {
        // not a colormap: no more than a well-formed buffer
        let V::T(v) = v_of(&vm.call("view", vec![o.clone()])?)? else { return Err("HARNESS:view".into()) };
        let (V::T(shape), V::Int(size), V::Int(bytes)) = (&v[4], &v[1], &v[2]) else { return Err("HARNESS:view".into()) };
        let n = shape.iter().fold(*size, |a, b| if let V::Int(b) = b { a * b } else { a });
        return ensure(n == *bytes, || format!("the buffer of a colormap of {} values has {bytes} bytes, its shape {n}", c.len()));
    }
    let n = c.len() / 3;
    let len = v_of(&vm.o(o.len().map_err(|e| e.to_string())?))?;
    ensure(len == int(n as u64), || format!("len of a colormap of {n} is {len:?}"))?;
    let mut rows = vec![];
    for i in 0..n {
        for b in 0..3 {
            rows.extend(c[b * n + i].to_ne_bytes());
        }
    }
    check_view(vm, "colormap", o, "H", 2, &[n, 3], &rows)
}

/// The buffer of an object: format, sizes, shape and, read in row-major order, its bytes.
fn check_view<'py>(vm: &Vm<'py>, what: &str, o: &Obj<'py>, fmt: &str, size: usize, shape: &[usize], want: &[u8]) -> R {
    let V::T(v) = v_of(&vm.call("view", vec![o.clone()])?)? else { return Err("HARNESS:view".into()) };
    let bytes = if shape.contains(&0) { 0 } else { shape.iter().product::<usize>() * size };
    let V::S(f) = &v[0] else { return Err(format!("{what}: the buffer has no format")) };
    let f = f.trim_start_matches(['@', '=']);
    let f = if cfg!(target_endian = "little") { f.trim_start_matches('<') } else { f.trim_start_matches(['>', '!']) };
    ensure(f == fmt, || format!("{what}: buffer format {f:?}, expected {fmt:?}"))?;
    for (k, n, w) in [(1, "itemsize", size), (2, "nbytes", bytes), (3, "ndim", shape.len())] {
        ensure(v[k] == int(w as u64), || format!("{what}: buffer {n} is {:?}, expected {w}", v[k]))?;
    }
    let w = V::T(shape.iter().map(|x| int(*x as u64)).collect());
    ensure(v[4] == w, || format!("{what}: buffer shape {:?}, expected {shape:?}", v[4]))?;
    ensure(v[6] == V::Bool(true), || format!("{what}: the buffer is writable"))?;
    let V::B(b) = &v[7] else { return Err("HARNESS:bytes".into()) };
    ensure(b == want, || format!("{what}: buffer contents differ: {}", first_diff(b, want)))
}

fn fmt_of(dt: async_tiff::DataType) -> (&'static str, usize) {
    use async_tiff::DataType::*;
    match dt {
        Bool | UInt8 => ("B", 1),
        UInt16 => ("H", 2),
        UInt32 => ("I", 4),
        UInt64 => ("Q", 8),
        Int8 => ("b", 1),
        Int16 => ("h", 2),
        Int32 => ("i", 4),
        Int64 => ("q", 8),
        Float32 => ("f", 4),
        Float64 => ("d", 8),
    }
}

fn check_py_array<'py>(vm: &Vm<'py>, o: &Obj<'py>, a: &Array, dt: async_tiff::DataType) -> R {
    let s = a.shape();
    let g = v_of(&vm.attr(o, "shape")?)?;
    let w = V::T(s.iter().map(|x| int(*x as u64)).collect());
    ensure(g == w, || format!("Array.shape is {g:?}, expected {s:?}"))?;
    let (fmt, size) = fmt_of(dt);
    check_view(vm, "Array", o, fmt, size, &s, &typed_bytes(a.data()))
}

// ---------- generation ----------

fn rich_tags(s: &mut Src, d: &mut Ifd) {
    for _ in 0..s.us(0, 8) {
        let (t, v) = match s.upto(10) {
            0 => {
                let n = s.us(1, 40);
                (*s.pick(&[269u16, 270, 305, 306, 315, 316, 33432, 42112, 42113]), Val::gen(s, 2, n))
            }
            1 => (*s.pick(&[282u16, 283]), Val::gen(s, 5, 1)),
            2 => {
                let n = s.us(1, 16);
                (*s.pick(&[33550u16, 33922, 34264]), Val::gen(s, 12, n))
            }
            3 => {
                let n = s.us(1, 20);
                (*s.pick(&[280u16, 281]), Val::gen(s, 3, n))
            }
            4 => {
                let n = if s.chance(1, 4) { s.us(1, 20) } else { 3 << s.us(0, 4) };
                (320, Val::gen(s, 3, n))
            }
            5 => {
                let n = s.us(1, 30);
                let t = *s.pick(&[7u16, 1]);
                (347, Val::gen(s, t, n))
            }
            6 => (254, Val::gen(s, 4, 1)),
            7 => (274, Val::Short(vec![s.upto(9) as u16])),
            8 => (296, Val::Short(vec![1 + s.upto(2) as u16])),
            9 => {
                let n = s.us(1, 4);
                (338, Val::Short((0..n).map(|_| s.upto(2) as u16).collect()))
            }
            _ => {
                let ty = if s.chance(1, 12) { *s.pick(&TYPES) } else { *s.pick(&[1u16, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17]) };
                let n = s.us(0, 6);
                (*s.pick(&[40_000u16, 50_002, 65_535, 330, 285, 40_001, 51_000]), Val::gen(s, ty, n))
            }
        };
        if d.get(t).is_none() {
            d.set(t, v);
        }
    }
    if s.chance(1, 3) {
        geo_tags(s, d);
    }
}

fn geo_tags(s: &mut Src, d: &mut Ifd) {
    let all = super::tags::geo_ids();
    let mut keys: Vec<usize> = (0..all.len()).filter(|_| s.chance(1, 3)).collect();
    keys.truncate(45);
    let (mut dbl, mut asc) = (vec![], String::new());
    let mut dir = vec![1u16, 1, 0, keys.len() as u16];
    for k in keys {
        let (id, kind) = all[k];
        match kind {
            'S' => dir.extend([id, 0, 1, s.ubits(16) as u16]),
            'D' => {
                dir.extend([id, 34736, 1, dbl.len() as u16]);
                dbl.push((s.ubits(20) as f64 / 7.0).to_bits());
            }
            _ => {
                let t = format!("{}|", "nameofthething".get(..s.us(1, 14)).unwrap());
                dir.extend([id, 34737, t.len() as u16, asc.len() as u16]);
                asc += &t;
            }
        }
    }
    d.set(tag::GEO_KEYS, Val::Short(dir));
    if !dbl.is_empty() {
        d.set(tag::GEO_DOUBLES, Val::Double(dbl));
    }
    if !asc.is_empty() {
        let mut b = asc.into_bytes();
        b.push(0);
        d.set(tag::GEO_ASCII, Val::Ascii(b));
    }
}

/// A decoder like the Python one.
#[derive(Debug)]
struct Xor(u8, u8);
impl Decoder for Xor {
    fn decode_tile(
        &self,
        buffer: Bytes,
        _p: PhotometricInterpretation,
        _j: Option<&[u8]>,
        _s: u16,
        _b: u16,
        _l: Option<&[u32]>,
    ) -> AsyncTiffResult<Vec<u8>> {
        match self.1 {
            1 | 2 => Err(AsyncTiffError::General("planned".into())),
            _ => Ok(buffer.iter().map(|x| x ^ self.0).collect()),
        }
    }
}

// ---------- cases ----------

fn c25(s: &mut Src, cx: &mut Cx) -> R {
    let h = helpers().map_err(|e| format!("importing async_tiff: {e}"))?;
    // The interpreter is shared by all threads.
    Python::attach(|py| {
        let vm = Vm { py, h: h.clone_ref(py).into_bound(py) };
        match s.weighted(&[12, 3, 2]) {
            0 => file(s, cx, &vm),
            1 => array(s, cx, &vm),
            _ => codes(s, cx, &vm),
        }
    })
}

/// Arrays made in Python.
fn array<'py>(s: &mut Src, cx: &mut Cx, vm: &Vm<'py>) -> R {
    let dt = *s.pick(&DTS);
    let (fmt, size) = fmt_of(dt.api());
    let mut shape = [s.us(0, 5), s.us(0, 5), s.us(0, 5)];
    let mut n = shape.iter().product::<usize>() * size;
    let wrong = s.weighted(&[6, 1, 1, 1]);
    match wrong {
        1 => n = s.us(0, 200),
        2 => shape = [s.ubits(34) as usize, s.ubits(34) as usize, s.ubits(20) as usize],
        3 => shape[s.us(0, 2)] += s.us(1, 3),
        _ => {}
    }
    let data = bulk(s.seed(), n);
    let prefix = *s.pick(&["", if cfg!(target_endian = "little") { "<" } else { ">" }, "@", "=", "|"]);
    let fits = shape.iter().try_fold(size as u128, |a, b| a.checked_mul(*b as u128)) == Some(n as u128);
    let args = vec![vm.bytes(&data), vm.o((shape[0], shape[1], shape[2])), vm.o(format!("{prefix}{fmt}"))];
    let kw = vm.kw(vec![]);
    let c = vm.class("Array")?;
    cx.label(if fits { "array" } else { "array that does not fit" });
    cx.nontrivial();
    cx.note(|| format!("Array({n} bytes, {shape:?}, {prefix}{fmt})"));
    match vm.try_call("callk", vec![c, vm.tup(args), kw])? {
        Ok(a) => {
            ensure(fits, || format!("an Array of shape {shape:?} was made over {n} bytes of format {fmt}"))?;
            let g = v_of(&vm.attr(&a, "shape")?)?;
            ensure(g == V::T(shape.iter().map(|x| int(*x as u64)).collect()), || format!("shape {g:?}"))?;
            check_view(vm, "Array", &a, fmt, size, &shape, &data)
        }
        // (an empty array with huge other sides may be refused)
        Err(e) => ensure(!fits || wrong == 2, || format!("Array of {n} bytes, shape {shape:?}, format {prefix}{fmt}: {}", cut(&e))),
    }
}

/// Codes and the members of the enumerations.
fn codes<'py>(s: &mut Src, cx: &mut Cx, vm: &Vm<'py>) -> R {
    let (class, members) = ENUMS[s.us(0, ENUMS.len() - 1)];
    let (name, code) = members[s.us(0, members.len() - 1)];
    cx.nontrivial();
    cx.label("enumeration");
    let g = v_of(&vm.call("by_name", vec![vm.o(class), vm.o(name)])?)?;
    ensure(g == int(code), || format!("enums.{class}.{name} is {g:?}, the code is {code}"))?;
    for c in [code, s.ubits(16) as u16] {
        let g = v_of(&vm.call("member", vec![vm.o(class), vm.o(c)])?)?;
        let w = en(class, c);
        ensure(same(&g, &w), || format!("enums.{class}({c}) is {g:?}, expected {w:?}"))?;
    }
    Ok(())
}

fn file<'py>(s: &mut Src, cx: &mut Cx, vm: &Vm<'py>) -> R {
    let py = vm.py;
    // the file
    let fl = Flavour::gen(s);
    let mut m = Model::default();
    let mut custom = false;
    for _ in 0..s.us(1, 3) {
        let mut d = match s.weighted(&[8, 1, 1, 1]) {
            0 => {
                let byte_only = s.chance(3, 4);
                let mut spec = Spec::gen(s, &SpecOpts { max_side: 20, max_spp: 4, byte_only, max_bytes: 3000 });
                spec.big_endian = fl.big_endian;
                if fl.big_endian && matches!(spec.codec, Codec::Lerc(_)) && spec.dt.size() > 1 {
                    spec.codec = Codec::Deflate;
                }
                let (nx, ny) = (s.us(1, 3), s.us(1, 2));
                let Some(img) = Img::with_spec(s, spec, nx, ny) else { return Ok(()) };
                cx.note(|| img.show());
                let mut d = img.ifd(&mut m.blobs, fl.bigtiff);
                match s.upto(9) {
                    // a compression of Python's own
                    1 if matches!(img.spec.codec, Codec::None) => {
                        d.set(tag::COMPRESSION, Val::Short(vec![*s.pick(&[65_000u16, 2, 32_773, 50_002])]));
                        custom = true;
                    }
                    2 => {
                        d.set(tag::SAMPLE_FORMAT, Val::Short(vec![*s.pick(&[4u16, 1, 2, 3]); img.spec.spp]));
                    }
                    3 => {
                        let k = s.us(0, 3);
                        d.set(tag::PREDICTOR, Val::Short(vec![k as u16]));
                    }
                    _ => {}
                }
                d
            }
            1 => {
                // strips
                let mut d = minimal_ifd(s.us(1, 50) as u32, s.us(1, 50) as u32);
                let n = s.us(1, 4);
                let first = m.blobs.len();
                for _ in 0..n {
                    let n = s.us(1, 9);
                    m.blobs.push(bulk(s.seed(), n).into());
                }
                d.set(tag::STRIP_OFFSETS, Val::Offsets(4, (0..n).map(|k| Some(first + k)).collect()));
                d.set(tag::STRIP_BYTE_COUNTS, Val::Long((0..n).map(|k| m.blobs[first + k].len() as u32).collect()));
                d.set(278, Val::Short(vec![s.us(1, 50) as u16]));
                d
            }
            2 => {
                // one-bit tiles
                let mut d = minimal_ifd(16, 9);
                d.set(tag::BITS, Val::Short(vec![1]));
                d.set(tag::TILE_WIDTH, Val::Short(vec![16]));
                d.set(tag::TILE_LENGTH, Val::Short(vec![16]));
                let at = m.blobs.len();
                m.blobs.push(bulk(s.seed(), 32).into());
                d.set(tag::TILE_OFFSETS, Val::Offsets(4, vec![Some(at)]));
                d.set(tag::TILE_BYTE_COUNTS, Val::Long(vec![32]));
                d
            }
            _ => minimal_ifd(s.us(1, 9) as u32, s.us(1, 9) as u32),
        };
        if s.chance(1, 8) {
            let (t, v) = match s.upto(4) {
                0 => (tag::COMPRESSION, s.ubits(16) as u16),
                1 => (tag::PHOTOMETRIC, s.upto(9) as u16),
                2 => (tag::PREDICTOR, s.upto(4) as u16),
                3 => (296, s.upto(4) as u16),
                _ => (tag::PLANAR, s.upto(3) as u16),
            };
            d.set(t, Val::Short(vec![v]));
        }
        if s.chance(1, 12) && !d.entries.iter().any(|e| e.tag == tag::STRIP_OFFSETS) {
            // strips beside the tiles, anywhere
            let n = s.us(1, 3);
            let far = s.chance(1, 2);
            let at = (0..n).map(|_| if far { s.ubits(32) as u32 } else { s.int(8, 3000) as u32 }).collect();
            d.set(tag::STRIP_OFFSETS, Val::Long(at));
            d.set(tag::STRIP_BYTE_COUNTS, Val::Long(vec![1; n]));
        }
        if s.chance(1, 8) {
            // a sparse file: a tile that is not there
            for e in &mut d.entries {
                if let Val::Offsets(_, v) = &mut e.val {
                    let k = s.index(v.len() as u64) as usize;
                    if let Some(o) = v.get_mut(k) {
                        *o = None;
                    }
                }
            }
        }
        rich_tags(s, &mut d);
        if s.chance(1, 10) {
            m.ifds.push(d.clone());
        }
        m.ifds.push(d);
    }
    let l = Layout::gen(s, &m, fl, false);
    let w = write(&m, fl, &l);
    if w.file.len > 4 << 20 {
        return Ok(());
    }
    let mut data = w.file.to_dense();
    if s.chance(1, 20) && !data.is_empty() {
        // a damaged file
        let mut d = data.to_vec();
        for _ in 0..s.us(1, 3) {
            let k = s.index(d.len() as u64) as usize;
            d[k] = s.upto(255) as u8;
        }
        data = d.into();
        cx.label("damaged");
    }
    let prefetch = match s.upto(3) {
        0 => None,
        1 => Some(s.int(1, 40)),
        _ => Some(s.int(1, 3000)),
    };
    let multiplier = match s.upto(2) {
        0 => None,
        _ => Some(1.0 + s.upto(40) as f64 / 8.0),
    };
    let through_store = s.chance(1, 4);
    // faults: k-th range served -> error or cut
    let mut faults: BTreeMap<u64, i64> = BTreeMap::new();
    if !through_store && s.chance(1, 5) {
        for _ in 0..s.us(1, 3) {
            let k = s.upto(8);
            let v = if s.bool() { -1 } else { s.upto(20) as i64 };
            faults.insert(k, v);
        }
        cx.label("faults");
    }

    // the Rust library
    let shared = Shared::new(Arc::new(SparseFile::dense(data.clone()))).budget(20_000).arc();
    {
        let fm = faults.clone();
        shared.set_faults(move |k| match fm.get(&k) {
            Some(-1) => Fault::Error,
            Some(n) => Fault::Truncate(*n as u64),
            None => Fault::None,
        });
    }
    let path = "some/where.tif";
    let mem: Arc<dyn object_store::ObjectStore> = Arc::new(object_store::memory::InMemory::new());
    let reader: Arc<dyn async_tiff::reader::AsyncFileReader> = if through_store {
        let at: object_store::path::Path = path.into();
        let put = object_store::ObjectStoreExt::put(mem.as_ref(), &at, data.clone().into());
        futures::executor::block_on(put).map_err(|e| format!("HARNESS:{e}"))?;
        Arc::new(async_tiff::reader::ObjectReader::new(mem.clone(), at))
    } else {
        Arc::new(MemBatch(shared.clone()))
    };
    let opened = block_on("opening in Rust", async {
        let c = ReadaheadMetadataCache::new(reader.clone())
            .with_initial_size(prefetch.unwrap_or(32768))
            .with_multiplier(multiplier.unwrap_or(2.0));
        let mut r = TiffMetadataReader::try_open(&c).await?;
        let ifds = r.read_all_ifds(&c).await?;
        Ok::<_, AsyncTiffError>((r.endianness(), ifds))
    })?;
    let flat_log = || -> Vec<(u64, u64)> {
        shared
            .take_log()
            .into_iter()
            .flat_map(|r| match r {
                Req::One(r) => vec![(r.start, r.end)],
                Req::Many(v) => v.into_iter().map(|r| (r.start, r.end)).collect(),
            })
            .collect()
    };

    // the same in Python
    struct Forget(Option<u64>);
    impl Drop for Forget {
        fn drop(&mut self) {
            if let Some(n) = self.0 {
                pyo3_object_store::forget(n);
            }
        }
    }
    let mut forget = Forget(None);
    let store = if through_store {
        let n = pyo3_object_store::register(mem);
        forget.0 = Some(n);
        vm.call("RustStore", vec![vm.o(n)])?
    } else {
        let d = PyDict::new(py);
        for (k, v) in &faults {
            d.set_item(*k, *v).unwrap();
        }
        let pause = s.us(0, 2);
        let kind = s.us(0, 2);
        vm.call("Store", vec![vm.bytes(&data), d.into_any(), vm.o(pause), vm.o(kind)])?
    };
    let mut kw = vec![("store", store.clone())];
    if let Some(p) = prefetch {
        kw.push(("prefetch", vm.o(p)));
    }
    if let Some(m) = multiplier {
        kw.push(("multiplier", vm.o(m)));
    }
    let open = vm.class("TIFF")?.getattr("open").map_err(|e| e.to_string())?;
    if through_store && s.chance(1, 4) {
        // another name: not found
        let r = vm.try_call("acallk", vec![open.clone(), vm.tup(vec![vm.o("else/where.tif")]), vm.kw(vec![("store", store.clone())])])?;
        match r {
            Ok(_) => return Err("a missing object was opened".into()),
            Err(e) => ensure(e.starts_with("FileNotFoundError"), || format!("a missing object raised {}", cut(&e)))?,
        }
    }
    let t = vm.try_call("acallk", vec![open, vm.tup(vec![vm.o(path)]), vm.kw(kw)])?;
    let log = |what: &str| -> R {
        let want = flat_log();
        if through_store {
            return Ok(());
        }
        let V::L(g) = v_of(&vm.attr(&store, "log")?)? else { return Err("HARNESS:log".into()) };
        store.setattr("log", pyo3::types::PyList::empty(py).into_any()).map_err(|e| e.to_string())?;
        let got: Vec<(u64, u64)> = g
            .iter()
            .filter_map(|x| match x {
                V::T(v) => match (&v[0], &v[1]) {
                    (V::Int(a), V::Int(b)) => Some((*a as u64, *b as u64)),
                    _ => None,
                },
                _ => None,
            })
            .collect();
        ensure(got == want, || format!("{what}: the store was asked for {got:?}, a Rust reader for {want:?}"))
    };
    cx.note(|| format!("{} bytes {}, prefetch {prefetch:?}, multiplier {multiplier:?}, faults {faults:?}, through a Rust store: {through_store}", data.len(), fl.name()));
    let (endianness, ifds) = match (&opened, &t) {
        (Err(_), Err(_)) => {
            cx.nontrivial();
            cx.label("refused");
            return log("opening");
        }
        (Ok(o), Ok(_)) => o,
        (Ok(_), Err(e)) => return Err(format!("Python raised {} where Rust opens the file", cut(e))),
        (Err(e), Ok(_)) => return Err(format!("Python opened a file that Rust refuses with {e}")),
    };
    let tiff = t.unwrap();
    log("opening")?;
    cx.nontrivial();
    cx.label(if through_store { "object store" } else { "obspec store" });

    // directories
    let g = v_of(&vm.attr(&tiff, "endianness")?)?;
    let wanted = match endianness {
        Endianness::LittleEndian => V::Enum("Endianness".into(), "LittleEndian".into(), 0),
        Endianness::BigEndian => V::Enum("Endianness".into(), "BigEndian".into(), 1),
    };
    ensure(g == wanted, || format!("endianness is {g:?}, expected {wanted:?}"))?;
    let list = vm.attr(&tiff, "ifds")?.iter_vec().map_err(|e| e.to_string())?;
    ensure(list.len() == ifds.len(), || format!("{} directories instead of {}", list.len(), ifds.len()))?;
    let ifd_fn = tiff.getattr("ifd").map_err(|e| e.to_string())?;
    for (k, (o, i)) in list.iter().zip(ifds).enumerate() {
        check_ifd(vm, &format!("ifds[{k}]"), o, i)?;
        let again = vm.call("call", vec![ifd_fn.clone(), vm.o(k)])?;
        for (j, (p, q)) in list.iter().chain([&again]).zip(ifds.iter().chain([i])).enumerate() {
            let V::T(e) = v_of(&vm.call("equal", vec![o.clone(), p.clone()])?)? else { return Err("HARNESS:eq".into()) };
            let w = i == q;
            if std::ptr::eq(i, q) && !w {
                // not equal to itself (a NaN): either answer will do
                continue;
            }
            ensure(e == [V::Bool(w), V::Bool(!w)], || format!("ifds[{k}] == [{j}]: {e:?}, in Rust {w}"))?;
        }
    }
    let r = vm.try_call("call", vec![ifd_fn.clone(), vm.o(ifds.len())])?;
    ensure(matches!(&r, Err(e) if e.starts_with("IndexError")), || "ifd(n) past the end is not an IndexError".into())?;
    // the smallest offset of any tile or strip
    let least = ifds
        .iter()
        .flat_map(|i| i.tile_offsets().into_iter().chain(i.strip_offsets()).flatten().copied())
        .filter(|o| *o != 0)
        .min();
    match (vm.try_call("get", vec![tiff.clone(), vm.o("header_byte_size")])?, least) {
        (Ok(g), Some(w)) => {
            let g = v_of(&g)?;
            ensure(g == int(w), || format!("header_byte_size is {g:?}, expected {w}"))?
        }
        (Err(_), None) => {}
        (Ok(g), None) => return Err(format!("header_byte_size is {g:?} without any tile or strip")),
        (Err(e), Some(w)) => return Err(format!("header_byte_size raised {}, expected {w}", cut(&e))),
    }

    // tiles
    let mut reg = DecoderRegistry::default();
    let mut pyreg = None;
    let mut codec = None;
    if custom || s.chance(1, 6) {
        let key = s.upto(255) as u8;
        let mode = s.weighted(&[5, 1, 1, 1]) as u8;
        let dec = vm.call("Codec", vec![vm.o(key), vm.o(mode)])?;
        let d = PyDict::new(py);
        let mut ids: Vec<u16> = ifds.iter().map(|i| i.compression().to_u16()).filter(|_| s.chance(2, 3)).collect();
        ids.push(65_001);
        for id in ids {
            let k = vm.call("member", vec![vm.o("Compression"), vm.o(id)])?;
            d.set_item(if s.bool() { k } else { vm.o(id) }, dec.clone()).unwrap();
            reg.as_mut().insert(Compression::from_u16_exhaustive(id), Box::new(Xor(key, mode)));
        }
        pyreg = Some(vm.call("call", vec![vm.class("DecoderRegistry")?, d.into_any()])?);
        codec = Some(dec);
        cx.label("custom decoder");
    } else if s.chance(1, 4) {
        pyreg = Some(match s.bool() {
            false => vm.call("call", vec![vm.class("DecoderRegistry")?])?,
            true => vm.call("call", vec![vm.class("DecoderRegistry")?, py.none()])?,
        });
    }
    let pool = if s.chance(1, 10) { Some(vm.call("call", vec![vm.class("ThreadPool")?, vm.o(s.us(1, 2))])?) } else { None };
    for _ in 0..s.us(1, 3) {
        let z = s.us(0, ifds.len() - 1);
        let i = &ifds[z];
        let (nx, ny) = i.tile_count().unwrap_or((1, 1));
        let mut xy = vec![];
        for _ in 0..s.us(1, 4) {
            let x = if s.chance(1, 15) { s.ubits(64) as usize } else { s.index(nx.max(1) as u64) as usize };
            let y = if s.chance(1, 15) { ny + s.us(0, 2) } else { s.index(ny.max(1) as u64) as usize };
            xy.push((x, y));
        }
        for (x, y) in &xy {
            let got = vm.try_call("call", vec![list[z].getattr("tile_byte_range").map_err(|e| e.to_string())?, vm.o(*x), vm.o(*y)])?;
            let want = i.tile_byte_range(*x, *y).map(|r| {
                let p = |r: &std::ops::Range<u64>| V::T(vec![int(r.start), int(r.end)]);
                match r {
                    TileByteRange::Chunky(r) => p(&r),
                    TileByteRange::Planar(v) => V::L(v.iter().map(p).collect()),
                }
            });
            match (got, want) {
                (Ok(g), Some(w)) => {
                    let g = v_of(&g)?;
                    ensure(g == w, || format!("tile_byte_range({x}, {y}) is {}, expected {}", show(&g), show(&w)))?
                }
                (Err(_), None) => {}
                (Ok(g), None) => return Err(format!("tile_byte_range({x}, {y}) is {g:?}, in Rust nothing")),
                (Err(e), Some(_)) => return Err(format!("tile_byte_range({x}, {y}) raised {}", cut(&e))),
            }
        }
        let many = s.bool();
        let by_ifd = s.bool();
        let (want, call): (AsyncTiffResult<Vec<Tile>>, _) = if many {
            let w = block_on("fetch_tiles in Rust", i.fetch_tiles(&xy, &reader))?;
            (w, vm.o(xy.clone()))
        } else {
            xy.truncate(1);
            let (x, y) = xy[0];
            let w = block_on("fetch_tile in Rust", i.fetch_tile(x, y, &reader))?;
            (w.map(|t| vec![t]), vm.o(x))
        };
        let mut args = vec![call];
        if !many {
            args.push(vm.o(xy[0].1));
        }
        let target = if by_ifd {
            list[z].clone()
        } else {
            args.push(vm.o(z));
            tiff.clone()
        };
        let fun = target.getattr(if many { "fetch_tiles" } else { "fetch_tile" }).map_err(|e| e.to_string())?;
        args.insert(0, fun);
        let got = vm.try_call("acall", args)?;
        log(if many { "fetch_tiles" } else { "fetch_tile" })?;
        let (tiles, objs) = match (want, got) {
            (Ok(t), Ok(o)) => {
                let o = if many { o.iter_vec().map_err(|e| e.to_string())? } else { vec![o] };
                (t, o)
            }
            (Err(_), Err(_)) => continue,
            (Ok(_), Err(e)) => return Err(format!("fetching {xy:?} raised {}, in Rust it succeeds", cut(&e))),
            (Err(e), Ok(_)) => return Err(format!("fetching {xy:?} succeeded, in Rust it fails with {e}")),
        };
        ensure(tiles.len() == objs.len(), || format!("{} tiles instead of {}", objs.len(), tiles.len()))?;
        for (t, o) in tiles.into_iter().zip(objs) {
            let want = [
                ("x", int(t.x() as u64)),
                ("y", int(t.y() as u64)),
                ("compression_method", en("Compression", t.compression_method().to_u16())),
                (
                    "compressed_bytes",
                    match t.compressed_bytes() {
                        CompressedBytes::Chunky(b) => V::B(b.to_vec()),
                        CompressedBytes::Planar(v) => V::L(v.iter().map(|b| V::B(b.to_vec())).collect()),
                    },
                ),
            ];
            for (n, w) in &want {
                let g = v_of(&vm.attr(&o, n)?)?;
                ensure(same(&g, w), || format!("Tile.{n} is {}, expected {}", show(&g), show(w)))?;
            }
            if s.chance(1, 5) {
                continue;
            }
            let parts: Vec<V> = parts_of(t.compressed_bytes()).iter().map(|b| V::B(b.to_vec())).collect();
            let comp = t.compression_method();
            let default = DecoderRegistry::default();
            let with = pyreg.as_ref().filter(|_| s.chance(4, 5));
            let used = if with.is_some() { &reg } else { &default };
            let want = sut("decoding a tile", || t.decode(used))?;
            let mut kw = vec![];
            match with {
                Some(r) => kw.push(("decoder_registry", r.clone())),
                None if s.chance(1, 3) => kw.push(("decoder_registry", py.none())),
                None => {}
            }
            let sync = s.chance(1, 3);
            if !sync {
                if let Some(p) = &pool {
                    kw.push(("pool", p.clone()));
                }
            }
            let fun = o.getattr(if sync { "decode_sync" } else { "decode" }).map_err(|e| e.to_string())?;
            let got = vm.try_call(if sync { "callk" } else { "acallk" }, vec![fun.clone(), vm.tup(vec![]), vm.kw(kw)])?;
            let how = if sync { "decode_sync" } else { "decode" };
            match (want, got) {
                (Ok(a), Ok(o)) => match a.data_type() {
                    Some(dt) => {
                        cx.label("decoded");
                        check_py_array(vm, &o, &a, dt).map_err(|e| format!("{how}: {e}"))?
                    }
                    None => return Err(format!("{how}: an array of unknown type was given out")),
                },
                (Ok(a), Err(e)) => ensure(a.data_type().is_none(), || format!("{how} raised {}, in Rust it succeeds", cut(&e)))?,
                (Err(_), Err(_)) => cx.label("decode refused"),
                (Err(e), Ok(_)) => return Err(format!("{how} succeeded, in Rust it fails with {e}")),
            }
            // custom decoders got the stored bytes
            if let (Some(c), true) = (&codec, with.is_some()) {
                let V::L(seen) = v_of(&vm.attr(c, "seen")?)? else { return Err("HARNESS:seen".into()) };
                c.setattr("seen", pyo3::types::PyList::empty(py).into_any()).map_err(|e| e.to_string())?;
                let _ = comp;
                ensure(seen.iter().all(|b| parts.contains(b)), || "a custom decoder was called with other bytes than the tile's".into())?;
            }
            // a tile is used up by decoding it
            let again = vm.try_call(if sync { "callk" } else { "acallk" }, vec![fun, vm.tup(vec![]), vm.kw(vec![])])?;
            ensure(again.is_err(), || "a tile was decoded twice".into())?;
        }
    }
    if !through_store {
        let p = vm.attr(&store, "paths")?;
        for p in p.iter_vec().map_err(|e| e.to_string())? {
            let p = v_of(&p)?;
            ensure(p == text(path), || format!("the store was asked for {p:?}"))?;
        }
    }
    Ok(())
}
