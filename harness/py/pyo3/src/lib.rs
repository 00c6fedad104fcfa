//! A small stand-in for PyO3 over the real CPython C API: enough of its surface to
//! compile /repo/python/src as it is and to run it inside an embedded interpreter.
//! What is written here follows the documented behaviour of PyO3 0.29.
#![allow(clippy::all)]
pub mod conv;
pub mod err;
pub mod ffi;
pub mod impl_;
pub mod obj;

pub use conv::{FromPyObject, FromPyObjectOwned, IntoPyObject, IntoPyObjectExt};
pub use err::{PyErr, PyErrArguments, PyResult};
pub use obj::{Borrowed, Bound, Py, PyAny, PyClass, PyRef, PyRefMut, Python};
pub use pyo3_macros::{pyclass, pyfunction, pymethods, pymodule};

pub mod prelude {
    pub use crate::conv::{FromPyObject, IntoPyObject};
    pub use crate::err::{PyErr, PyResult};
    pub use crate::obj::{Borrowed, Bound, Py, PyAny, PyRef, PyRefMut, Python};
    pub use crate::types::{PyModule, PyTypeInfo};
    pub use crate::wrap_pyfunction;
    pub use pyo3_macros::{pyclass, pyfunction, pymethods, pymodule, FromPyObject, IntoPyObject};
}

pub mod types {
    pub use crate::obj::{PyAny, PyBytes, PyDict, IntoPyDict, PyFloat, PyInt, PyIterator, PyList, PyModule, PyString, PyTuple, PyType, PyTypeInfo};
}

pub mod sync {
    use crate::Python;
    pub struct PyOnceLock<T>(std::sync::OnceLock<T>);
    impl<T> PyOnceLock<T> {
        pub const fn new() -> Self {
            Self(std::sync::OnceLock::new())
        }
        pub fn get(&self, _py: Python<'_>) -> Option<&T> {
            self.0.get()
        }
        pub fn get_or_init(&self, _py: Python<'_>, f: impl FnOnce() -> T) -> &T {
            self.0.get_or_init(f)
        }
        pub fn get_or_try_init<E>(&self, _py: Python<'_>, f: impl FnOnce() -> Result<T, E>) -> Result<&T, E> {
            if let Some(v) = self.0.get() {
                return Ok(v);
            }
            let v = f()?;
            Ok(self.0.get_or_init(|| v))
        }
    }
}

pub mod exceptions {
    macro_rules! exc {
        ($($n:ident $c:ident $s:literal;)*) => {$(
            pub struct $n;
            impl $n {
                pub fn new_err<A: crate::PyErrArguments>(args: A) -> crate::PyErr {
                    crate::PyErr::lazy($s, || unsafe { crate::ffi::$c }, args.arguments())
                }
            }
            impl crate::err::ExcType for $n {
                fn type_ptr() -> *mut crate::ffi::PyObject {
                    unsafe { crate::ffi::$c }
                }
            }
        )*};
    }
    exc! {
        PyValueError PyExc_ValueError "ValueError";
        PyTypeError PyExc_TypeError "TypeError";
        PyRuntimeError PyExc_RuntimeError "RuntimeError";
        PyRuntimeWarning PyExc_RuntimeWarning "RuntimeWarning";
        PyKeyError PyExc_KeyError "KeyError";
        PyIndexError PyExc_IndexError "IndexError";
        PyFileNotFoundError PyExc_FileNotFoundError "FileNotFoundError";
        PyException PyExc_Exception "Exception";
        PyOverflowError PyExc_OverflowError "OverflowError";
        PyBufferError PyExc_BufferError "BufferError";
        PyNotImplementedError PyExc_NotImplementedError "NotImplementedError";
        PyOSError PyExc_OSError "OSError";
        PyIOError PyExc_OSError "OSError";
        PyAttributeError PyExc_AttributeError "AttributeError";
        PyMemoryError PyExc_MemoryError "MemoryError";
    }
}

#[macro_export]
macro_rules! intern {
    ($py:expr, $s:expr) => {
        &$crate::types::PyString::new($py, $s)
    };
}

#[macro_export]
macro_rules! create_exception {
    ($module:ident, $name:ident, $base:ty) => {
        $crate::create_exception!($module, $name, $base, "");
    };
    ($module:ident, $name:ident, $base:ty, $doc:expr) => {
        pub struct $name;
        impl $name {
            pub fn new_err<A: $crate::PyErrArguments>(args: A) -> $crate::PyErr {
                $crate::PyErr::lazy(stringify!($name), <Self as $crate::err::ExcType>::type_ptr, args.arguments())
            }
        }
        impl $crate::err::ExcType for $name {
            fn type_ptr() -> *mut $crate::ffi::PyObject {
                static T: ::std::sync::OnceLock<usize> = ::std::sync::OnceLock::new();
                *T.get_or_init(|| {
                    $crate::err::new_exception_type(
                        concat!(stringify!($module), ".", stringify!($name)),
                        <$base as $crate::err::ExcType>::type_ptr(),
                    ) as usize
                }) as *mut $crate::ffi::PyObject
            }
        }
    };
}

#[macro_export]
macro_rules! wrap_pyfunction {
    ($f:ident) => {
        $f::wrap
    };
}
