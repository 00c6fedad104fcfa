use crate::err::{PyErr, PyResult};
use crate::exceptions::{PyOverflowError, PyTypeError, PyValueError};
use crate::ffi;
use crate::obj::*;
use std::collections::{BTreeMap, HashMap};
use std::hash::Hash;

pub trait IntoPyObject<'py>: Sized {
    type Target;
    type Output: Into<Bound<'py, PyAny>>;
    type Error: Into<PyErr>;
    fn into_pyobject(self, py: Python<'py>) -> Result<Self::Output, Self::Error>;

    #[doc(hidden)]
    fn sequence(items: Vec<Self>, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        PyList::new(py, items).map(Bound::into_any)
    }
}

pub trait IntoPyObjectExt<'py>: IntoPyObject<'py> {
    fn into_bound_py_any(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        self.into_pyobject(py).map(Into::into).map_err(Into::into)
    }
    fn into_py_any(self, py: Python<'py>) -> PyResult<Py<PyAny>> {
        self.into_bound_py_any(py).map(Bound::unbind)
    }
}
impl<'py, T: IntoPyObject<'py>> IntoPyObjectExt<'py> for T {}

macro_rules! into_any {
    ([$($g:tt)*] $t:ty, |$s:ident, $py:ident| $e:expr) => {
        impl<'py, $($g)*> IntoPyObject<'py> for $t {
            type Target = PyAny;
            type Output = Bound<'py, PyAny>;
            type Error = PyErr;
            fn into_pyobject(self, $py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
                let $s = self;
                $e
            }
        }
    };
}
macro_rules! ints {
    ($($t:ident)*, $f:ident, $w:ident) => {$(
        into_any!([] $t, |s, py| py.owned(unsafe { ffi::$f(s as $w) }));
        into_any!([] &$t, |s, py| (*s).into_bound_py_any(py));
    )*};
}
ints!(u16 u32 u64 usize, PyLong_FromUnsignedLongLong, u64);
ints!(i8 i16 i32 i64 isize, PyLong_FromLongLong, i64);
macro_rules! byte {
    ($t:ty, |$x:ident| $e:expr) => {
        impl<'py> IntoPyObject<'py> for $t {
            type Target = PyAny;
            type Output = Bound<'py, PyAny>;
            type Error = PyErr;
            fn into_pyobject(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
                let $x = self;
                py.owned(unsafe { ffi::PyLong_FromUnsignedLongLong($e as u64) })
            }
            // a sequence of bytes becomes `bytes`
            fn sequence(items: Vec<Self>, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
                let v: Vec<u8> = items.into_iter().map(|$x| $e).collect();
                Ok(PyBytes::new(py, &v).into_any())
            }
        }
    };
}
byte!(u8, |x| x);
byte!(&u8, |x| *x);
into_any!([] f64, |s, py| py.owned(unsafe { ffi::PyFloat_FromDouble(s) }));
into_any!([] &f64, |s, py| (*s).into_bound_py_any(py));
into_any!([] f32, |s, py| py.owned(unsafe { ffi::PyFloat_FromDouble(s as f64) }));
into_any!([] &f32, |s, py| (*s).into_bound_py_any(py));
into_any!([] bool, |s, py| py.owned(unsafe { ffi::PyBool_FromLong(s as _) }));
into_any!([] &bool, |s, py| (*s).into_bound_py_any(py));
into_any!([] &str, |s, py| Ok(PyString::new(py, s).into_any()));
into_any!([] String, |s, py| Ok(PyString::new(py, &s).into_any()));
into_any!([] &String, |s, py| Ok(PyString::new(py, s).into_any()));
into_any!([] char, |s, py| Ok(PyString::new(py, s.encode_utf8(&mut [0; 4])).into_any()));
into_any!([T: IntoPyObject<'py>] Option<T>, |s, py| match s {
    Some(v) => v.into_bound_py_any(py),
    None => Ok(py.none()),
});
into_any!([T: IntoPyObject<'py>] Vec<T>, |s, py| T::sequence(s, py));
impl<'a, 'py, T> IntoPyObject<'py> for &'a [T]
where
    &'a T: IntoPyObject<'py>,
{
    type Target = PyAny;
    type Output = Bound<'py, PyAny>;
    type Error = PyErr;
    fn into_pyobject(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        <&'a T as IntoPyObject<'py>>::sequence(self.iter().collect(), py)
    }
}
into_any!([T: IntoPyObject<'py>, const N: usize] [T; N], |s, py| T::sequence(s.into_iter().collect(), py));
into_any!([K: IntoPyObject<'py>, V: IntoPyObject<'py>, S] HashMap<K, V, S>, |s, py| {
    let d = PyDict::new(py);
    for (k, v) in s {
        d.set_item(k, v)?;
    }
    Ok(d.into_any())
});
into_any!([K: IntoPyObject<'py>, V: IntoPyObject<'py>] BTreeMap<K, V>, |s, py| {
    let d = PyDict::new(py);
    for (k, v) in s {
        d.set_item(k, v)?;
    }
    Ok(d.into_any())
});
into_any!([] (), |_s, py| Ok(PyTuple::empty(py).into_any()));
macro_rules! tuples {
    ($($n:ident $i:tt),*) => {
        into_any!([$($n: IntoPyObject<'py>),*] ($($n,)*), |s, py| {
            let v = vec![$(s.$i.into_bound_py_any(py)?),*];
            PyTuple::new(py, v).map(Bound::into_any)
        });
        impl<'a, 'py, $($n: FromPyObjectOwned<'py>),*> FromPyObject<'a, 'py> for ($($n,)*) {
            type Error = PyErr;
            fn extract(obj: Borrowed<'a, 'py, PyAny>) -> PyResult<Self> {
                if !obj.is_kind(&raw mut ffi::PyTuple_Type) {
                    return Err(PyTypeError::new_err(format!("'{}' object is not an instance of 'tuple'", obj.get_type_name())));
                }
                let n = [$($i),*].len();
                if obj.len()? != n {
                    return Err(PyValueError::new_err(format!("expected tuple of length {n}")));
                }
                Ok(($(obj.get_item($i as usize)?.extract::<$n>().map_err(Into::into)?,)*))
            }
        }
    };
}
tuples!(A 0);
tuples!(A 0, B 1);
tuples!(A 0, B 1, C 2);
tuples!(A 0, B 1, C 2, D 3);
into_any!([T] Bound<'py, T>, |s, _py| Ok(s.into_any()));
into_any!([T] &Bound<'py, T>, |s, _py| Ok(s.clone().into_any()));
into_any!([T] Py<T>, |s, py| Ok(s.into_bound(py).into_any()));
into_any!([T] &Py<T>, |s, py| Ok(s.clone_ref(py).into_bound(py).into_any()));
into_any!([] PyErr, |s, py| Ok(s.value(py).into_bound(py)));

pub trait FromPyObject<'a, 'py>: Sized {
    type Error: Into<PyErr>;
    fn extract(obj: Borrowed<'a, 'py, PyAny>) -> Result<Self, Self::Error>;

    #[doc(hidden)]
    fn type_name() -> &'static str {
        std::any::type_name::<Self>()
    }
}
pub trait FromPyObjectOwned<'py>: for<'a> FromPyObject<'a, 'py> {}
impl<'py, T: for<'a> FromPyObject<'a, 'py>> FromPyObjectOwned<'py> for T {}

macro_rules! from_any {
    ([$($g:tt)*] $t:ty, |$o:ident| $e:expr) => {
        impl<'a, 'py, $($g)*> FromPyObject<'a, 'py> for $t {
            type Error = PyErr;
            fn extract($o: Borrowed<'a, 'py, PyAny>) -> PyResult<Self> {
                $e
            }
        }
    };
}
macro_rules! from_int {
    ($f:ident $w:ident: $($t:ident)*) => {$(
        from_any!([] $t, |o| {
            let py = o.py();
            let n = py.owned(unsafe { ffi::PyNumber_Index(o.as_ptr()) })?;
            let v = unsafe { ffi::$f(n.as_ptr()) };
            if v == (-1i64) as $w {
                if let Some(e) = PyErr::take(py) {
                    return Err(e);
                }
            }
            <$t>::try_from(v).map_err(|e| PyOverflowError::new_err(e.to_string()))
        });
    )*};
}
from_int!(PyLong_AsUnsignedLongLong u64: u8 u16 u32 u64 usize);
from_int!(PyLong_AsLongLong i64: i8 i16 i32 i64 isize);
from_any!([] f64, |o| {
    let v = unsafe { ffi::PyFloat_AsDouble(o.as_ptr()) };
    if v == -1.0 {
        if let Some(e) = PyErr::take(o.py()) {
            return Err(e);
        }
    }
    Ok(v)
});
from_any!([] f32, |o| o.extract::<f64>().map(|x| x as f32));
from_any!([] bool, |o| {
    if !o.is_kind(&raw mut ffi::PyBool_Type) {
        return Err(PyTypeError::new_err("expected a bool"));
    }
    Ok(unsafe { ffi::PyObject_IsTrue(o.as_ptr()) } == 1)
});
from_any!([] String, |o| o.extract::<&str>().map(|s| s.to_string()));
impl<'a, 'py> FromPyObject<'a, 'py> for &'a str {
    type Error = PyErr;
    fn extract(obj: Borrowed<'a, 'py, PyAny>) -> PyResult<Self> {
        if !obj.is_kind(&raw mut ffi::PyUnicode_Type) {
            return Err(PyTypeError::new_err(format!("'{}' object is not an instance of 'str'", obj.get_type_name())));
        }
        let mut n = 0;
        unsafe {
            let p = ffi::PyUnicode_AsUTF8AndSize(obj.as_ptr(), &mut n);
            if p.is_null() {
                return Err(PyErr::fetch(obj.py()));
            }
            Ok(std::str::from_utf8_unchecked(std::slice::from_raw_parts(p.cast(), n as usize)))
        }
    }
}
impl<'a, 'py, T: FromPyObject<'a, 'py>> FromPyObject<'a, 'py> for Option<T> {
    type Error = T::Error;
    fn extract(obj: Borrowed<'a, 'py, PyAny>) -> Result<Self, T::Error> {
        if obj.is_none() {
            Ok(None)
        } else {
            T::extract(obj).map(Some)
        }
    }
}
fn sequence<'py, T: FromPyObjectOwned<'py>>(obj: &Bound<'py, PyAny>) -> PyResult<Vec<T>> {
    if obj.is_kind(&raw mut ffi::PyUnicode_Type) {
        return Err(PyTypeError::new_err("Can't extract `str` to `Vec`"));
    }
    if unsafe { ffi::PySequence_Check(obj.as_ptr()) } == 0 {
        return Err(PyTypeError::new_err(format!("'{}' object is not an instance of 'Sequence'", obj.get_type_name())));
    }
    let items = obj.iter_vec()?;
    items.iter().map(|i| i.extract::<T>().map_err(Into::into)).collect()
}
from_any!([T: FromPyObjectOwned<'py>] Vec<T>, |o| sequence(&o));
from_any!([T: FromPyObjectOwned<'py>, const N: usize] [T; N], |o| {
    let v = sequence::<T>(&o)?;
    let n = v.len();
    v.try_into().map_err(|_| PyValueError::new_err(format!("expected a sequence of length {N} (got {n})")))
});
from_any!([K: FromPyObjectOwned<'py> + Eq + Hash, V: FromPyObjectOwned<'py>] HashMap<K, V>, |o| {
    let d = o.cast::<PyDict>()?;
    let mut out = HashMap::new();
    for (k, v) in d.items_vec() {
        out.insert(k.extract::<K>().map_err(Into::into)?, v.extract::<V>().map_err(Into::into)?);
    }
    Ok(out)
});
from_any!([] Bound<'py, PyAny>, |o| Ok(o.to_owned()));
from_any!([] Py<PyAny>, |o| Ok(o.to_owned().unbind()));
from_any!([] Bound<'py, PyDict>, |o| Ok(o.cast::<PyDict>()?.clone()));
from_any!([] Bound<'py, PyList>, |o| Ok(o.cast::<PyList>()?.clone()));
from_any!([] Bound<'py, PyTuple>, |o| Ok(o.cast::<PyTuple>()?.clone()));
from_any!([] Bound<'py, PyString>, |o| Ok(o.cast::<PyString>()?.clone()));
from_any!([] Bound<'py, PyBytes>, |o| Ok(o.cast::<PyBytes>()?.clone()));
from_any!([] Bound<'py, PyType>, |o| Ok(o.cast::<PyType>()?.clone()));
from_any!([T: PyClass] PyRef<'py, T>, |o| {
    if !o.is_kind(T::type_object(o.py())) {
        return Err(PyTypeError::new_err(format!("'{}' object is not an instance of '{}'", o.get_type_name(), T::NAME)));
    }
    Ok(PyRef::from_bound(o.to_owned().cast_unchecked()))
});
