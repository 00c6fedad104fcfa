//! What the macros expand to.
use crate::conv::{FromPyObject, IntoPyObject, IntoPyObjectExt};
use crate::err::{PyErr, PyResult};
use crate::exceptions::PyTypeError;
use crate::ffi::{self, PyObject};
use crate::obj::*;
use std::ffi::CString;
use std::marker::PhantomData;

#[repr(C)]
struct Cell<T> {
    head: PyObject,
    value: std::mem::ManuallyDrop<T>,
}

/// # Safety
/// `p` is an instance of the class of T.
pub unsafe fn contents<'a, T>(p: *mut PyObject) -> &'a T {
    &(*p.cast::<Cell<T>>()).value
}
/// # Safety
/// As above, and not borrowed.
pub unsafe fn contents_mut<'a, T>(p: *mut PyObject) -> &'a mut T {
    &mut (*p.cast::<Cell<T>>()).value
}

pub fn create<T>(py: Python<'_>, v: T, t: *mut ffi::PyTypeObject) -> PyResult<Py<T>> {
    unsafe {
        let p = ffi::PyType_GenericAlloc(t, 0);
        if p.is_null() {
            return Err(PyErr::fetch(py));
        }
        std::ptr::write(&mut (*p.cast::<Cell<T>>()).value, std::mem::ManuallyDrop::new(v));
        Ok(Py::from_owned(p))
    }
}

unsafe extern "C" fn dealloc<T>(p: *mut PyObject) {
    std::mem::ManuallyDrop::drop(&mut (*p.cast::<Cell<T>>()).value);
    let t = (*p).ob_type;
    ffi::PyObject_Free(p.cast());
    ffi::Py_DecRef(t);
}

pub enum Item {
    Method(&'static str, ffi::PyCFunctionWithKeywords),
    ClassMethod(&'static str, ffi::PyCFunctionWithKeywords),
    StaticMethod(&'static str, ffi::PyCFunctionWithKeywords),
    Getter(&'static str, ffi::getter),
    New(ffi::newfunc),
    GetBuffer(ffi::getbufferproc),
    ReleaseBuffer(ffi::releasebufferproc),
}

pub struct Collector<T>(PhantomData<T>);
impl<T> Collector<T> {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Self(PhantomData)
    }
}
pub trait Items<T> {
    fn items(self) -> Vec<Item>;
}
pub trait NoItems<T> {
    fn items(self) -> Vec<Item>;
}
impl<T> NoItems<T> for &Collector<T> {
    fn items(self) -> Vec<Item> {
        vec![]
    }
}

fn leak(s: &str) -> *const std::ffi::c_char {
    CString::new(s).unwrap().into_raw()
}

pub fn build_type<T: PyClass>(py: Python<'_>, items: Vec<Item>) -> *mut ffi::PyTypeObject {
    unsafe {
        let mut slots = vec![ffi::PyType_Slot { slot: ffi::Py_tp_dealloc, pfunc: dealloc::<T> as *mut _ }];
        let mut flags = ffi::Py_TPFLAGS_DEFAULT | ffi::Py_TPFLAGS_BASETYPE;
        let mut has_new = false;
        for i in &items {
            match i {
                Item::New(f) => {
                    has_new = true;
                    slots.push(ffi::PyType_Slot { slot: ffi::Py_tp_new, pfunc: *f as *mut _ })
                }
                Item::GetBuffer(f) => slots.push(ffi::PyType_Slot { slot: ffi::Py_bf_getbuffer, pfunc: *f as *mut _ }),
                Item::ReleaseBuffer(f) => {
                    slots.push(ffi::PyType_Slot { slot: ffi::Py_bf_releasebuffer, pfunc: *f as *mut _ })
                }
                _ => {}
            }
        }
        if !has_new {
            flags |= ffi::Py_TPFLAGS_DISALLOW_INSTANTIATION;
        }
        slots.push(ffi::PyType_Slot { slot: 0, pfunc: std::ptr::null_mut() });
        let mut spec = ffi::PyType_Spec {
            name: leak(&format!("async_tiff.{}", T::NAME)),
            basicsize: std::mem::size_of::<Cell<T>>() as _,
            itemsize: 0,
            flags,
            slots: slots.as_mut_ptr(),
        };
        let t = ffi::PyType_FromSpec(&mut spec);
        if t.is_null() {
            panic!("{}", PyErr::fetch(py));
        }
        // attributes are set after the fact, so that special methods get their slots
        for i in items {
            let def = |name: &str, f, extra| {
                Box::into_raw(Box::new(ffi::PyMethodDef {
                    ml_name: leak(name),
                    ml_meth: f,
                    ml_flags: ffi::METH_VARARGS | ffi::METH_KEYWORDS | extra,
                    ml_doc: std::ptr::null(),
                }))
            };
            let (name, d) = match i {
                Item::Method(n, f) => (n, ffi::PyDescr_NewMethod(t, def(n, f, 0))),
                Item::ClassMethod(n, f) => (n, ffi::PyDescr_NewClassMethod(t, def(n, f, ffi::METH_CLASS))),
                Item::StaticMethod(n, f) => {
                    let c = ffi::PyCFunction_NewEx(def(n, f, 0), std::ptr::null_mut(), std::ptr::null_mut());
                    (n, ffi::PyStaticMethod_New(c))
                }
                Item::Getter(n, f) => (
                    n,
                    ffi::PyDescr_NewGetSet(
                        t,
                        Box::into_raw(Box::new(ffi::PyGetSetDef {
                            name: leak(n),
                            get: Some(f),
                            set: std::ptr::null_mut(),
                            doc: std::ptr::null(),
                            closure: std::ptr::null_mut(),
                        })),
                    ),
                ),
                _ => continue,
            };
            assert!(!d.is_null(), "descriptor {name}");
            let rc = ffi::PyObject_SetAttrString(t, leak(name), d);
            if rc != 0 {
                panic!("{name}: {}", PyErr::fetch(py));
            }
        }
        t
    }
}

pub fn function<'py>(py: Python<'py>, name: &str, f: ffi::PyCFunctionWithKeywords) -> PyResult<Bound<'py, PyAny>> {
    let d = Box::into_raw(Box::new(ffi::PyMethodDef {
        ml_name: leak(name),
        ml_meth: f,
        ml_flags: ffi::METH_VARARGS | ffi::METH_KEYWORDS,
        ml_doc: std::ptr::null(),
    }));
    py.owned(unsafe { ffi::PyCFunction_NewEx(d, std::ptr::null_mut(), std::ptr::null_mut()) })
}

pub struct Param {
    pub name: &'static str,
    pub keyword_only: bool,
    pub required: bool,
}

/// Binds a call's arguments to parameters.
pub fn bind<'py>(
    py: Python<'py>,
    fname: &str,
    params: &[Param],
    args: *mut PyObject,
    kwargs: *mut PyObject,
) -> PyResult<Vec<Option<Bound<'py, PyAny>>>> {
    let mut out: Vec<Option<Bound<'py, PyAny>>> = params.iter().map(|_| None).collect();
    let npos = params.iter().filter(|p| !p.keyword_only).count();
    if !args.is_null() {
        let n = unsafe { ffi::PyObject_Size(args) } as usize;
        if n > npos {
            return Err(PyTypeError::new_err(format!("{fname}() takes {npos} positional arguments but {n} were given")));
        }
        for i in 0..n {
            out[i] = Some(unsafe { Bound::from_borrowed(py, ffi::PyTuple_GetItem(args, i as isize)) });
        }
    }
    if !kwargs.is_null() {
        let d: Bound<'py, PyDict> = unsafe { Bound::from_borrowed(py, kwargs) };
        for (k, v) in d.items_vec() {
            let k: String = k.extract()?;
            let Some(i) = params.iter().position(|p| p.name == k) else {
                return Err(PyTypeError::new_err(format!("{fname}() got an unexpected keyword argument '{k}'")));
            };
            if out[i].is_some() {
                return Err(PyTypeError::new_err(format!("{fname}() got multiple values for argument '{k}'")));
            }
            out[i] = Some(v);
        }
    }
    for (p, v) in params.iter().zip(&out) {
        if p.required && v.is_none() {
            return Err(PyTypeError::new_err(format!("{fname}() missing required argument: '{}'", p.name)));
        }
    }
    Ok(out)
}

pub fn arg<'a, 'py, T: FromPyObject<'a, 'py>>(v: &'a Bound<'py, PyAny>, name: &str) -> PyResult<T> {
    v.extract::<T>().map_err(|e| {
        let e: PyErr = e.into();
        let py = v.py();
        if e.is_instance_of::<PyTypeError>(py) {
            let msg = e.value(py).bind(py).to_string();
            PyTypeError::new_err(format!("argument '{name}': {msg}"))
        } else {
            e
        }
    })
}

pub struct Ret<T>(pub T);
impl<T, E: Into<PyErr>> Ret<Result<T, E>> {
    pub fn conv<'py>(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>>
    where
        T: IntoPyObject<'py>,
    {
        match self.0 {
            Ok(v) => plain(v, py),
            Err(e) => Err(e.into()),
        }
    }
}
pub trait RetPlain<'py> {
    fn conv(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>>;
}
impl<'py, T: IntoPyObject<'py>> RetPlain<'py> for Ret<T> {
    fn conv(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        plain(self.0, py)
    }
}
fn plain<'py, T: IntoPyObject<'py>>(v: T, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
    if std::mem::size_of::<T>() == 0 && std::any::type_name::<T>() == "()" {
        return Ok(py.none());
    }
    v.into_bound_py_any(py)
}

pub struct RetNew<T>(pub T);
impl<T, E: Into<PyErr>> RetNew<Result<T, E>> {
    pub fn value(self) -> PyResult<T> {
        self.0.map_err(Into::into)
    }
}
pub trait RetNewPlain<T> {
    fn value(self) -> PyResult<T>;
}
impl<T: PyClass> RetNewPlain<T> for RetNew<T> {
    fn value(self) -> PyResult<T> {
        Ok(self.0)
    }
}

/// Runs a function called from Python: an error or a panic becomes an exception.
pub fn enter<R>(f: impl for<'py> FnOnce(Python<'py>) -> PyResult<R>, failed: R) -> R {
    let py = unsafe { Python::assume_attached() };
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(py))) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => {
            e.restore(py);
            failed
        }
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            PyErr::lazy("PanicException", panic_type, m).restore(py);
            failed
        }
    }
}
/// PyO3 raises `pyo3_runtime.PanicException`, which derives from BaseException.
pub fn panic_type() -> *mut PyObject {
    static T: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *T.get_or_init(|| {
        crate::err::new_exception_type("pyo3_runtime.PanicException", unsafe { ffi::PyExc_BaseException }) as usize
    }) as *mut PyObject
}
