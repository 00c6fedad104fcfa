use crate::conv::{FromPyObject, IntoPyObject};
use crate::err::{PyErr, PyResult};
use crate::ffi::{self, PyObject};
use std::ffi::CString;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};

#[derive(Clone, Copy)]
pub struct Python<'py>(PhantomData<(&'py (), *mut ())>);

impl<'py> Python<'py> {
    /// # Safety
    /// The caller holds the GIL.
    pub unsafe fn assume_attached() -> Python<'py> {
        Python(PhantomData)
    }
    pub fn attach<R>(f: impl for<'p> FnOnce(Python<'p>) -> R) -> R {
        struct G(std::ffi::c_int);
        impl Drop for G {
            fn drop(&mut self) {
                unsafe { ffi::PyGILState_Release(self.0) }
            }
        }
        let _g = G(unsafe { ffi::PyGILState_Ensure() });
        f(Python(PhantomData))
    }
    pub fn with_gil<R>(f: impl for<'p> FnOnce(Python<'p>) -> R) -> R {
        Self::attach(f)
    }
    pub fn detach<R>(self, f: impl FnOnce() -> R) -> R {
        struct G(*mut std::ffi::c_void);
        impl Drop for G {
            fn drop(&mut self) {
                unsafe { ffi::PyEval_RestoreThread(self.0) }
            }
        }
        let _g = G(unsafe { ffi::PyEval_SaveThread() });
        f()
    }
    pub fn allow_threads<R>(self, f: impl FnOnce() -> R) -> R {
        self.detach(f)
    }
    pub fn import(self, name: impl IntoPyObject<'py>) -> PyResult<Bound<'py, PyModule>> {
        let n: Bound<'py, PyAny> = name.into_pyobject(self).map_err(Into::into)?.into();
        let s: String = n.extract()?;
        let c = CString::new(s).unwrap();
        self.owned(unsafe { ffi::PyImport_ImportModule(c.as_ptr()) }).map(|b| b.cast_unchecked())
    }
    #[allow(non_snake_case)]
    pub fn None(self) -> Py<PyAny> {
        self.none().unbind()
    }
    pub fn none(self) -> Bound<'py, PyAny> {
        unsafe {
            ffi::Py_IncRef(ffi::Py_None());
            Bound::from_owned(self, ffi::Py_None())
        }
    }
    /// Takes a new reference returned by the C API.
    pub fn owned(self, p: *mut PyObject) -> PyResult<Bound<'py, PyAny>> {
        if p.is_null() {
            Err(PyErr::fetch(self))
        } else {
            Ok(unsafe { Bound::from_owned(self, p) })
        }
    }
    pub fn check(self, rc: std::ffi::c_int) -> PyResult<()> {
        if rc < 0 {
            Err(PyErr::fetch(self))
        } else {
            Ok(())
        }
    }
}

pub struct Py<T> {
    p: *mut PyObject,
    t: PhantomData<T>,
}
unsafe impl<T> Send for Py<T> {}
unsafe impl<T> Sync for Py<T> {}

impl<T> Py<T> {
    /// # Safety
    /// `p` is a new reference.
    pub unsafe fn from_owned(p: *mut PyObject) -> Self {
        assert!(!p.is_null());
        Py { p, t: PhantomData }
    }
    pub fn as_ptr(&self) -> *mut PyObject {
        self.p
    }
    pub fn into_ptr(self) -> *mut PyObject {
        let p = self.p;
        std::mem::forget(self);
        p
    }
    pub fn clone_ref(&self, _py: Python<'_>) -> Self {
        unsafe { ffi::Py_IncRef(self.p) };
        Py { p: self.p, t: PhantomData }
    }
    pub fn bind<'py>(&self, _py: Python<'py>) -> &Bound<'py, T> {
        unsafe { std::mem::transmute(self) }
    }
    pub fn into_bound<'py>(self, _py: Python<'py>) -> Bound<'py, T> {
        Bound(self, PhantomData)
    }
    pub fn extract<'a, 'py, D: FromPyObject<'a, 'py>>(&'a self, py: Python<'py>) -> Result<D, D::Error>
    where
        'py: 'a,
    {
        let b: &'a Bound<'py, T> = self.bind(py);
        b.extract()
    }
    pub fn call<'py>(&self, py: Python<'py>, args: impl IntoPyObject<'py>, kwargs: Option<&Bound<'py, PyDict>>) -> PyResult<Py<PyAny>> {
        self.bind(py).call(args, kwargs).map(Bound::unbind)
    }
    pub fn call0<'py>(&self, py: Python<'py>) -> PyResult<Py<PyAny>> {
        self.call(py, (), None)
    }
    pub fn call1<'py>(&self, py: Python<'py>, args: impl IntoPyObject<'py>) -> PyResult<Py<PyAny>> {
        self.call(py, args, None)
    }
    pub fn getattr<'py>(&self, py: Python<'py>, name: impl IntoPyObject<'py>) -> PyResult<Py<PyAny>> {
        self.bind(py).getattr(name).map(Bound::unbind)
    }
    pub fn call_method<'py>(
        &self,
        py: Python<'py>,
        name: impl IntoPyObject<'py>,
        args: impl IntoPyObject<'py>,
        kwargs: Option<&Bound<'py, PyDict>>,
    ) -> PyResult<Py<PyAny>> {
        self.bind(py).call_method(name, args, kwargs).map(Bound::unbind)
    }
    pub fn call_method0<'py>(&self, py: Python<'py>, name: impl IntoPyObject<'py>) -> PyResult<Py<PyAny>> {
        self.call_method(py, name, (), None)
    }
    pub fn call_method1<'py>(&self, py: Python<'py>, name: impl IntoPyObject<'py>, args: impl IntoPyObject<'py>) -> PyResult<Py<PyAny>> {
        self.call_method(py, name, args, None)
    }
}
impl<T> Drop for Py<T> {
    fn drop(&mut self) {
        unsafe {
            if ffi::PyGILState_Check() != 0 {
                ffi::Py_DecRef(self.p)
            } else {
                let p = self.p;
                Python::attach(|_| ffi::Py_DecRef(p))
            }
        }
    }
}
impl<T> std::fmt::Debug for Py<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Py({:p})", self.p)
    }
}
impl<T: PyClass> Py<T> {
    pub fn new(py: Python<'_>, v: T) -> PyResult<Py<T>> {
        crate::impl_::create(py, v, T::type_object(py))
    }
}

#[repr(transparent)]
pub struct Bound<'py, T>(Py<T>, PhantomData<Python<'py>>);

impl<'py, T> Clone for Bound<'py, T> {
    fn clone(&self) -> Self {
        Bound(self.0.clone_ref(self.py()), PhantomData)
    }
}
impl<T> std::fmt::Debug for Bound<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.as_any().repr() {
            Ok(r) => write!(f, "{r}"),
            Err(_) => write!(f, "<unprintable>"),
        }
    }
}
impl<T> std::fmt::Display for Bound<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.as_any().str() {
            Ok(r) => write!(f, "{}", r.to_str()),
            Err(_) => write!(f, "<unprintable>"),
        }
    }
}

impl<'py, T> Bound<'py, T> {
    /// # Safety
    /// `p` is a new reference.
    pub unsafe fn from_owned(_py: Python<'py>, p: *mut PyObject) -> Self {
        Bound(Py::from_owned(p), PhantomData)
    }
    /// # Safety
    /// `p` is a valid object.
    pub unsafe fn from_borrowed(py: Python<'py>, p: *mut PyObject) -> Self {
        ffi::Py_IncRef(p);
        Self::from_owned(py, p)
    }
    pub fn py(&self) -> Python<'py> {
        Python(PhantomData)
    }
    pub fn as_ptr(&self) -> *mut PyObject {
        self.0.p
    }
    pub fn into_ptr(self) -> *mut PyObject {
        self.0.into_ptr()
    }
    pub fn unbind(self) -> Py<T> {
        self.0
    }
    pub fn as_unbound(&self) -> &Py<T> {
        &self.0
    }
    pub fn as_borrowed<'a>(&'a self) -> Borrowed<'a, 'py, T> {
        Borrowed(self)
    }
    pub fn as_any(&self) -> &Bound<'py, PyAny> {
        unsafe { std::mem::transmute(self) }
    }
    pub fn into_any(self) -> Bound<'py, PyAny> {
        self.cast_unchecked()
    }
    pub fn cast_unchecked<U>(self) -> Bound<'py, U> {
        Bound(Py { p: self.0.into_ptr(), t: PhantomData }, PhantomData)
    }
    fn arg(&self, v: impl IntoPyObject<'py>) -> PyResult<Bound<'py, PyAny>> {
        v.into_pyobject(self.py()).map(Into::into).map_err(Into::into)
    }
    pub fn getattr(&self, name: impl IntoPyObject<'py>) -> PyResult<Bound<'py, PyAny>> {
        let n = self.arg(name)?;
        self.py().owned(unsafe { ffi::PyObject_GetAttr(self.as_ptr(), n.as_ptr()) })
    }
    pub fn setattr(&self, name: impl IntoPyObject<'py>, v: impl IntoPyObject<'py>) -> PyResult<()> {
        let n = self.arg(name)?;
        let v = self.arg(v)?;
        self.py().check(unsafe { ffi::PyObject_SetAttr(self.as_ptr(), n.as_ptr(), v.as_ptr()) })
    }
    pub fn hasattr(&self, name: impl IntoPyObject<'py>) -> PyResult<bool> {
        match self.getattr(name) {
            Ok(_) => Ok(true),
            Err(e) if e.is_instance_of::<crate::exceptions::PyAttributeError>(self.py()) => Ok(false),
            Err(e) => Err(e),
        }
    }
    pub fn call(&self, args: impl IntoPyObject<'py>, kwargs: Option<&Bound<'py, PyDict>>) -> PyResult<Bound<'py, PyAny>> {
        let a = self.arg(args)?;
        assert!(a.is_kind(&raw mut ffi::PyTuple_Type), "arguments are not a tuple");
        let k = kwargs.map_or(std::ptr::null_mut(), |k| k.as_ptr());
        self.py().owned(unsafe { ffi::PyObject_Call(self.as_ptr(), a.as_ptr(), k) })
    }
    pub fn call0(&self) -> PyResult<Bound<'py, PyAny>> {
        self.call((), None)
    }
    pub fn call1(&self, args: impl IntoPyObject<'py>) -> PyResult<Bound<'py, PyAny>> {
        self.call(args, None)
    }
    pub fn call_method(
        &self,
        name: impl IntoPyObject<'py>,
        args: impl IntoPyObject<'py>,
        kwargs: Option<&Bound<'py, PyDict>>,
    ) -> PyResult<Bound<'py, PyAny>> {
        self.getattr(name)?.call(args, kwargs)
    }
    pub fn call_method0(&self, name: impl IntoPyObject<'py>) -> PyResult<Bound<'py, PyAny>> {
        self.call_method(name, (), None)
    }
    pub fn call_method1(&self, name: impl IntoPyObject<'py>, args: impl IntoPyObject<'py>) -> PyResult<Bound<'py, PyAny>> {
        self.call_method(name, args, None)
    }
    pub fn get_item(&self, k: impl IntoPyObject<'py>) -> PyResult<Bound<'py, PyAny>> {
        let k = self.arg(k)?;
        self.py().owned(unsafe { ffi::PyObject_GetItem(self.as_ptr(), k.as_ptr()) })
    }
    pub fn len(&self) -> PyResult<usize> {
        let n = unsafe { ffi::PyObject_Size(self.as_ptr()) };
        if n < 0 {
            Err(PyErr::fetch(self.py()))
        } else {
            Ok(n as usize)
        }
    }
    pub fn try_iter(&self) -> PyResult<Bound<'py, PyIterator>> {
        let py = self.py();
        py.owned(unsafe { ffi::PyObject_GetIter(self.as_ptr()) }).map(Bound::cast_unchecked)
    }
    pub fn iter_vec(&self) -> PyResult<Vec<Bound<'py, PyAny>>> {
        let py = self.py();
        let it = py.owned(unsafe { ffi::PyObject_GetIter(self.as_ptr()) })?;
        let mut out = vec![];
        loop {
            let n = unsafe { ffi::PyIter_Next(it.as_ptr()) };
            if n.is_null() {
                return match PyErr::take(py) {
                    Some(e) => Err(e),
                    None => Ok(out),
                };
            }
            out.push(unsafe { Bound::from_owned(py, n) });
        }
    }
    pub fn str(&self) -> PyResult<Bound<'py, PyString>> {
        self.py().owned(unsafe { ffi::PyObject_Str(self.as_ptr()) }).map(Bound::cast_unchecked)
    }
    pub fn repr(&self) -> PyResult<String> {
        let b: Bound<'py, PyString> = self.py().owned(unsafe { ffi::PyObject_Repr(self.as_ptr()) })?.cast_unchecked();
        Ok(b.to_str().to_string())
    }
    pub fn is_none(&self) -> bool {
        self.as_ptr() == unsafe { ffi::Py_None() }
    }
    pub fn is_callable(&self) -> bool {
        unsafe { ffi::PyCallable_Check(self.as_ptr()) != 0 }
    }
    pub fn get_type_name(&self) -> String {
        let t = self.as_any().getattr("__class__").and_then(|t| t.getattr("__name__"));
        t.map(|t| t.to_string()).unwrap_or_default()
    }
    pub fn eq(&self, o: impl IntoPyObject<'py>) -> PyResult<bool> {
        let o = self.arg(o)?;
        let r = unsafe { ffi::PyObject_RichCompareBool(self.as_ptr(), o.as_ptr(), 2) };
        if r < 0 {
            Err(PyErr::fetch(self.py()))
        } else {
            Ok(r == 1)
        }
    }
    /// Is the type of the object exactly this one, or derived from it?
    pub fn is_kind(&self, t: *mut ffi::PyTypeObject) -> bool {
        unsafe { ffi::PyType_IsSubtype((*self.as_ptr()).ob_type, t) != 0 }
    }
    pub fn extract<'a, D: FromPyObject<'a, 'py>>(&'a self) -> Result<D, D::Error> {
        D::extract(Borrowed(self.as_any()))
    }
    pub fn cast<U: PyTypeInfo>(&self) -> PyResult<&Bound<'py, U>> {
        if self.is_kind(U::type_ptr(self.py())) {
            Ok(unsafe { std::mem::transmute(self) })
        } else {
            Err(crate::exceptions::PyTypeError::new_err(format!("cannot cast '{}'", self.get_type_name())))
        }
    }
    pub fn downcast<U: PyTypeInfo>(&self) -> PyResult<&Bound<'py, U>> {
        self.cast()
    }
}
impl<'py, T: PyClass> Bound<'py, T> {
    pub fn new(py: Python<'py>, v: T) -> PyResult<Self> {
        Py::new(py, v).map(|p| p.into_bound(py))
    }
    pub fn borrow(&self) -> PyRef<'py, T> {
        PyRef(self.clone())
    }
    pub fn get(&self) -> &T {
        unsafe { crate::impl_::contents(self.as_ptr()) }
    }
}
pub struct Borrowed<'a, 'py, T>(&'a Bound<'py, T>);
impl<T> Clone for Borrowed<'_, '_, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for Borrowed<'_, '_, T> {}
impl<'py, T> Deref for Borrowed<'_, 'py, T> {
    type Target = Bound<'py, T>;
    fn deref(&self) -> &Bound<'py, T> {
        self.0
    }
}
impl<'a, 'py, T> Borrowed<'a, 'py, T> {
    pub fn to_owned(self) -> Bound<'py, T> {
        self.0.clone()
    }
    /// The object, for as long as it is borrowed.
    pub fn inner(self) -> &'a Bound<'py, T> {
        self.0
    }
    pub fn extract<D: FromPyObject<'a, 'py>>(self) -> Result<D, D::Error> {
        self.0.extract()
    }
}

pub trait PyTypeInfo {
    fn type_ptr(py: Python<'_>) -> *mut ffi::PyTypeObject;
}
macro_rules! native {
    ($($n:ident $c:ident),*) => {$(
        pub struct $n;
        impl PyTypeInfo for $n {
            fn type_ptr(_py: Python<'_>) -> *mut ffi::PyTypeObject {
                &raw mut ffi::$c
            }
        }
        impl<'py> From<Bound<'py, $n>> for Bound<'py, PyAny> {
            fn from(b: Bound<'py, $n>) -> Self {
                b.into_any()
            }
        }
    )*};
}
native!(PyString PyUnicode_Type, PyTuple PyTuple_Type, PyDict PyDict_Type, PyList PyList_Type, PyType PyType_Type, PyBytes PyBytes_Type, PyInt PyLong_Type, PyFloat PyFloat_Type);
pub struct PyAny;
pub struct PyModule;
pub struct PyIterator;
impl<'py> From<Bound<'py, PyIterator>> for Bound<'py, PyAny> {
    fn from(b: Bound<'py, PyIterator>) -> Self {
        b.into_any()
    }
}
impl<'py> Iterator for Bound<'py, PyIterator> {
    type Item = PyResult<Bound<'py, PyAny>>;
    fn next(&mut self) -> Option<Self::Item> {
        let n = unsafe { ffi::PyIter_Next(self.as_ptr()) };
        if n.is_null() {
            PyErr::take(self.py()).map(Err)
        } else {
            Some(Ok(unsafe { Bound::from_owned(self.py(), n) }))
        }
    }
}
pub trait IntoPyDict<'py>: Sized {
    fn into_py_dict(self, py: Python<'py>) -> PyResult<Bound<'py, PyDict>>;
}
impl<'py, K: IntoPyObject<'py>, V: IntoPyObject<'py>, I: IntoIterator<Item = (K, V)>> IntoPyDict<'py> for I {
    fn into_py_dict(self, py: Python<'py>) -> PyResult<Bound<'py, PyDict>> {
        let d = PyDict::new(py);
        for (k, v) in self {
            d.set_item(k, v)?;
        }
        Ok(d)
    }
}
impl<'py> From<Bound<'py, PyModule>> for Bound<'py, PyAny> {
    fn from(b: Bound<'py, PyModule>) -> Self {
        b.into_any()
    }
}
impl<'py, T: PyClass> From<Bound<'py, T>> for Bound<'py, PyAny> {
    fn from(b: Bound<'py, T>) -> Self {
        b.into_any()
    }
}

impl PyString {
    pub fn new<'py>(py: Python<'py>, s: &str) -> Bound<'py, PyString> {
        unsafe { Bound::from_owned(py, ffi::PyUnicode_FromStringAndSize(s.as_ptr().cast(), s.len() as isize)) }
    }
}
impl Bound<'_, PyString> {
    pub fn to_str(&self) -> &str {
        let mut n = 0;
        unsafe {
            let p = ffi::PyUnicode_AsUTF8AndSize(self.as_ptr(), &mut n);
            if p.is_null() {
                ffi::Py_DecRef(ffi::PyErr_GetRaisedException());
                return "";
            }
            std::str::from_utf8_unchecked(std::slice::from_raw_parts(p.cast(), n as usize))
        }
    }
}
impl PyBytes {
    pub fn new<'py>(py: Python<'py>, s: &[u8]) -> Bound<'py, PyBytes> {
        unsafe { Bound::from_owned(py, ffi::PyBytes_FromStringAndSize(s.as_ptr().cast(), s.len() as isize)) }
    }
}
impl Bound<'_, PyBytes> {
    pub fn as_bytes(&self) -> &[u8] {
        let (mut p, mut n) = (std::ptr::null_mut(), 0);
        unsafe {
            ffi::PyBytes_AsStringAndSize(self.as_ptr(), &mut p, &mut n);
            std::slice::from_raw_parts(p.cast(), n as usize)
        }
    }
}
impl PyTuple {
    pub fn new<'py, T: IntoPyObject<'py>>(py: Python<'py>, xs: impl IntoIterator<Item = T>) -> PyResult<Bound<'py, PyTuple>> {
        let v: Vec<Bound<'py, PyAny>> =
            xs.into_iter().map(|x| x.into_pyobject(py).map(Into::into).map_err(Into::into)).collect::<PyResult<_>>()?;
        unsafe {
            let t = ffi::PyTuple_New(v.len() as isize);
            for (i, x) in v.into_iter().enumerate() {
                ffi::PyTuple_SetItem(t, i as isize, x.into_ptr());
            }
            Ok(Bound::from_owned(py, t))
        }
    }
    pub fn empty(py: Python<'_>) -> Bound<'_, PyTuple> {
        unsafe { Bound::from_owned(py, ffi::PyTuple_New(0)) }
    }
}
impl PyList {
    pub fn new<'py, T: IntoPyObject<'py>>(py: Python<'py>, xs: impl IntoIterator<Item = T>) -> PyResult<Bound<'py, PyList>> {
        let l: Bound<'py, PyList> = unsafe { Bound::from_owned(py, ffi::PyList_New(0)) };
        for x in xs {
            let x: Bound<'py, PyAny> = x.into_pyobject(py).map(Into::into).map_err(Into::into)?;
            py.check(unsafe { ffi::PyList_Append(l.as_ptr(), x.as_ptr()) })?;
        }
        Ok(l)
    }
    pub fn empty(py: Python<'_>) -> Bound<'_, PyList> {
        unsafe { Bound::from_owned(py, ffi::PyList_New(0)) }
    }
}
impl PyDict {
    pub fn new(py: Python<'_>) -> Bound<'_, PyDict> {
        unsafe { Bound::from_owned(py, ffi::PyDict_New()) }
    }
}
impl<'py> Bound<'py, PyDict> {
    pub fn set_item(&self, k: impl IntoPyObject<'py>, v: impl IntoPyObject<'py>) -> PyResult<()> {
        let (k, v) = (self.arg(k)?, self.arg(v)?);
        self.py().check(unsafe { ffi::PyDict_SetItem(self.as_ptr(), k.as_ptr(), v.as_ptr()) })
    }
    pub fn items_vec(&self) -> Vec<(Bound<'py, PyAny>, Bound<'py, PyAny>)> {
        let mut out = vec![];
        let (mut pos, mut k, mut v) = (0, std::ptr::null_mut(), std::ptr::null_mut());
        unsafe {
            while ffi::PyDict_Next(self.as_ptr(), &mut pos, &mut k, &mut v) != 0 {
                out.push((Bound::from_borrowed(self.py(), k), Bound::from_borrowed(self.py(), v)));
            }
        }
        out
    }
}
impl PyModule {
    pub fn new<'py>(py: Python<'py>, name: &str) -> PyResult<Bound<'py, PyModule>> {
        let c = CString::new(name).unwrap();
        py.owned(unsafe { ffi::PyModule_New(c.as_ptr()) }).map(Bound::cast_unchecked)
    }
    pub fn import<'py>(py: Python<'py>, name: impl IntoPyObject<'py>) -> PyResult<Bound<'py, PyModule>> {
        py.import(name)
    }
}
impl<'py> Bound<'py, PyModule> {
    pub fn add(&self, name: &str, v: impl IntoPyObject<'py>) -> PyResult<()> {
        self.setattr(name, v)
    }
    pub fn add_class<T: PyClass>(&self) -> PyResult<()> {
        let py = self.py();
        let t: Bound<'py, PyAny> = unsafe { Bound::from_borrowed(py, T::type_object(py)) };
        self.setattr(T::NAME, t)
    }
    pub fn add_wrapped(&self, f: fn(Python<'py>) -> PyResult<Bound<'py, PyAny>>) -> PyResult<()> {
        self.add_function_obj(f(self.py())?)
    }
    pub fn add_function(&self, f: fn(Python<'py>) -> PyResult<Bound<'py, PyAny>>) -> PyResult<()> {
        self.add_wrapped(f)
    }
    fn add_function_obj(&self, f: Bound<'py, PyAny>) -> PyResult<()> {
        let n = f.getattr("__name__")?;
        self.setattr(n, f)
    }
    pub fn add_submodule(&self, m: &Bound<'py, PyModule>) -> PyResult<()> {
        let n = m.getattr("__name__")?;
        self.setattr(n, m.clone())
    }
}

/// What `#[pyclass]` provides.
pub trait PyClass: Sized + 'static {
    const NAME: &'static str;
    fn type_object(py: Python<'_>) -> *mut ffi::PyTypeObject;
}

pub struct PyRef<'py, T>(Bound<'py, T>);
impl<'py, T> PyRef<'py, T> {
    pub fn as_ptr(&self) -> *mut PyObject {
        self.0.as_ptr()
    }
    pub fn into_ptr(self) -> *mut PyObject {
        self.0.into_ptr()
    }
    pub fn py(&self) -> Python<'py> {
        self.0.py()
    }
    pub fn from_bound(b: Bound<'py, T>) -> Self {
        PyRef(b)
    }
}
impl<T> Deref for PyRef<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { crate::impl_::contents(self.0.as_ptr()) }
    }
}
pub struct PyRefMut<'py, T>(Bound<'py, T>);
impl<'py, T> PyRefMut<'py, T> {
    pub fn from_bound(b: Bound<'py, T>) -> Self {
        PyRefMut(b)
    }
}
impl<T> Deref for PyRefMut<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { crate::impl_::contents(self.0.as_ptr()) }
    }
}
impl<T> DerefMut for PyRefMut<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { crate::impl_::contents_mut(self.0.as_ptr()) }
    }
}
