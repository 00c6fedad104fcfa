//! Bytes shared with Python through the buffer protocol. Here they go out as `bytes`.
use bytes::Bytes;
use pyo3::ffi;
use pyo3::{Borrowed, Bound, FromPyObject, IntoPyObject, PyAny, PyErr, Python};

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct PyBytes(Bytes);

impl PyBytes {
    pub fn new(b: Bytes) -> Self {
        Self(b)
    }
    pub fn into_inner(self) -> Bytes {
        self.0
    }
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for PyBytes {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<Bytes> for PyBytes {
    fn as_ref(&self) -> &Bytes {
        &self.0
    }
}
impl From<Bytes> for PyBytes {
    fn from(b: Bytes) -> Self {
        Self(b)
    }
}
impl From<PyBytes> for Bytes {
    fn from(b: PyBytes) -> Self {
        b.0
    }
}
impl<'py> IntoPyObject<'py> for PyBytes {
    type Target = PyAny;
    type Output = Bound<'py, PyAny>;
    type Error = PyErr;
    fn into_pyobject(self, py: Python<'py>) -> Result<Self::Output, PyErr> {
        Ok(pyo3::types::PyBytes::new(py, &self.0).into_any())
    }
}
impl<'py> FromPyObject<'_, 'py> for PyBytes {
    type Error = PyErr;
    fn extract(obj: Borrowed<'_, 'py, PyAny>) -> Result<Self, PyErr> {
        let mut v = ffi::Py_buffer::new();
        obj.py().check(unsafe { ffi::PyObject_GetBuffer(obj.as_ptr(), &mut v, ffi::PyBUF_FULL_RO) })?;
        let mut out = vec![0u8; v.len as usize];
        let rc = unsafe { ffi::PyBuffer_ToContiguous(out.as_mut_ptr().cast(), &v, v.len, b'C' as _) };
        unsafe { ffi::PyBuffer_Release(&mut v) };
        obj.py().check(rc)?;
        Ok(Self(out.into()))
    }
}
