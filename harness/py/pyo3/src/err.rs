use crate::ffi::{self, PyObject};
use crate::obj::{Py, PyAny, Python};
use std::ffi::CString;

pub type PyResult<T> = Result<T, PyErr>;

pub trait ExcType {
    fn type_ptr() -> *mut PyObject;
}

pub trait PyErrArguments {
    fn arguments(self) -> String;
}
impl PyErrArguments for String {
    fn arguments(self) -> String {
        self
    }
}
impl PyErrArguments for &str {
    fn arguments(self) -> String {
        self.to_string()
    }
}
impl PyErrArguments for () {
    fn arguments(self) -> String {
        String::new()
    }
}
impl<A: std::fmt::Display> PyErrArguments for (A,) {
    fn arguments(self) -> String {
        self.0.to_string()
    }
}

enum Kind {
    Lazy(&'static str, fn() -> *mut PyObject, String),
    Raised(Py<PyAny>),
}

pub struct PyErr(Kind);

pub fn new_exception_type(name: &str, base: *mut PyObject) -> *mut PyObject {
    let n = CString::new(name).unwrap();
    Python::attach(|_| unsafe { ffi::PyErr_NewException(n.as_ptr(), base, std::ptr::null_mut()) })
}

impl PyErr {
    pub fn lazy(name: &'static str, t: fn() -> *mut PyObject, msg: String) -> Self {
        PyErr(Kind::Lazy(name, t, msg))
    }
    pub fn new<T: ExcType, A: PyErrArguments>(args: A) -> Self {
        PyErr(Kind::Lazy("", T::type_ptr, args.arguments()))
    }
    pub fn take(_py: Python<'_>) -> Option<Self> {
        let e = unsafe { ffi::PyErr_GetRaisedException() };
        if e.is_null() {
            None
        } else {
            Some(PyErr(Kind::Raised(unsafe { Py::from_owned(e) })))
        }
    }
    pub fn fetch(py: Python<'_>) -> Self {
        Self::take(py).unwrap_or_else(|| crate::exceptions::PyRuntimeError::new_err("no exception set"))
    }
    /// The exception object.
    pub fn value(&self, py: Python<'_>) -> Py<PyAny> {
        match &self.0 {
            Kind::Raised(o) => o.clone_ref(py),
            Kind::Lazy(_, t, m) => unsafe {
                let s = crate::obj::PyString::new(py, m);
                let a = ffi::PyTuple_New(1);
                ffi::PyTuple_SetItem(a, 0, s.into_any().into_ptr());
                let o = ffi::PyObject_Call(t(), a, std::ptr::null_mut());
                ffi::Py_DecRef(a);
                if o.is_null() {
                    Py::from_owned(ffi::PyErr_GetRaisedException())
                } else {
                    Py::from_owned(o)
                }
            },
        }
    }
    pub fn restore(self, py: Python<'_>) {
        let v = self.value(py);
        unsafe { ffi::PyErr_SetRaisedException(v.into_ptr()) }
    }
    pub fn clone_ref(&self, py: Python<'_>) -> Self {
        PyErr(Kind::Raised(self.value(py)))
    }
    pub fn is_instance_of<T: ExcType>(&self, py: Python<'_>) -> bool {
        unsafe { ffi::PyErr_GivenExceptionMatches(self.value(py).as_ptr(), T::type_ptr()) != 0 }
    }
}

impl std::fmt::Display for PyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let (t, m) = Python::attach(|py| {
            let v = self.value(py);
            let b = v.bind(py);
            let t = b.get_type_name();
            let m = b.str().map(|s| s.to_string()).unwrap_or_default();
            (t, m)
        });
        write!(f, "{t}: {m}")
    }
}
impl std::fmt::Debug for PyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "PyErr({self})")
    }
}
impl std::error::Error for PyErr {}
impl From<std::convert::Infallible> for PyErr {
    fn from(x: std::convert::Infallible) -> Self {
        match x {}
    }
}
impl From<std::io::Error> for PyErr {
    fn from(x: std::io::Error) -> Self {
        crate::exceptions::PyOSError::new_err(x.to_string())
    }
}
