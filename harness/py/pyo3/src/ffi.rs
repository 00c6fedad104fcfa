//! The part of CPython's C API (3.12) that is used here.
#![allow(non_camel_case_types, non_snake_case, non_upper_case_globals)]
use std::ffi::{c_char, c_int, c_long, c_longlong, c_uint, c_ulonglong, c_void};

pub type Py_ssize_t = isize;

#[repr(C)]
#[derive(Debug)]
pub struct PyObject {
    pub ob_refcnt: Py_ssize_t,
    pub ob_type: *mut PyTypeObject,
}
pub type PyTypeObject = PyObject;

#[repr(C)]
#[derive(Debug, Clone)]
pub struct Py_buffer {
    pub buf: *mut c_void,
    pub obj: *mut PyObject,
    pub len: Py_ssize_t,
    pub itemsize: Py_ssize_t,
    pub readonly: c_int,
    pub ndim: c_int,
    pub format: *mut c_char,
    pub shape: *mut Py_ssize_t,
    pub strides: *mut Py_ssize_t,
    pub suboffsets: *mut Py_ssize_t,
    pub internal: *mut c_void,
}
impl Py_buffer {
    #[allow(clippy::new_without_default)]
    pub const fn new() -> Self {
        use std::ptr::null_mut as n;
        Py_buffer { buf: n(), obj: n(), len: 0, itemsize: 0, readonly: 0, ndim: 0, format: n(), shape: n(), strides: n(), suboffsets: n(), internal: n() }
    }
}
pub const PyBUF_SIMPLE: c_int = 0;
pub const PyBUF_WRITABLE: c_int = 1;
pub const PyBUF_FORMAT: c_int = 4;
pub const PyBUF_ND: c_int = 8;
pub const PyBUF_STRIDES: c_int = 0x10 | PyBUF_ND;
pub const PyBUF_C_CONTIGUOUS: c_int = 0x20 | PyBUF_STRIDES;
pub const PyBUF_F_CONTIGUOUS: c_int = 0x40 | PyBUF_STRIDES;
pub const PyBUF_ANY_CONTIGUOUS: c_int = 0x80 | PyBUF_STRIDES;
pub const PyBUF_INDIRECT: c_int = 0x100 | PyBUF_STRIDES;
pub const PyBUF_FULL_RO: c_int = PyBUF_INDIRECT | PyBUF_FORMAT;
pub const PyBUF_READ: c_int = 0x100;

pub type PyCFunctionWithKeywords = unsafe extern "C" fn(*mut PyObject, *mut PyObject, *mut PyObject) -> *mut PyObject;
pub type getter = unsafe extern "C" fn(*mut PyObject, *mut c_void) -> *mut PyObject;
pub type newfunc = unsafe extern "C" fn(*mut PyTypeObject, *mut PyObject, *mut PyObject) -> *mut PyObject;
pub type destructor = unsafe extern "C" fn(*mut PyObject);
pub type getbufferproc = unsafe extern "C" fn(*mut PyObject, *mut Py_buffer, c_int) -> c_int;
pub type releasebufferproc = unsafe extern "C" fn(*mut PyObject, *mut Py_buffer);

#[repr(C)]
pub struct PyMethodDef {
    pub ml_name: *const c_char,
    pub ml_meth: PyCFunctionWithKeywords,
    pub ml_flags: c_int,
    pub ml_doc: *const c_char,
}
pub const METH_VARARGS: c_int = 1;
pub const METH_KEYWORDS: c_int = 2;
pub const METH_CLASS: c_int = 16;

#[repr(C)]
pub struct PyGetSetDef {
    pub name: *const c_char,
    pub get: Option<getter>,
    pub set: *mut c_void,
    pub doc: *const c_char,
    pub closure: *mut c_void,
}

#[repr(C)]
pub struct PyType_Slot {
    pub slot: c_int,
    pub pfunc: *mut c_void,
}
#[repr(C)]
pub struct PyType_Spec {
    pub name: *const c_char,
    pub basicsize: c_int,
    pub itemsize: c_int,
    pub flags: c_uint,
    pub slots: *mut PyType_Slot,
}
pub const Py_bf_getbuffer: c_int = 1;
pub const Py_bf_releasebuffer: c_int = 2;
pub const Py_tp_dealloc: c_int = 52;
pub const Py_tp_new: c_int = 65;
pub const Py_TPFLAGS_DEFAULT: c_uint = 1 << 18;
pub const Py_TPFLAGS_BASETYPE: c_uint = 1 << 10;
pub const Py_TPFLAGS_DISALLOW_INSTANTIATION: c_uint = 1 << 7;

extern "C" {
    pub fn Py_InitializeEx(sigs: c_int);
    pub fn Py_IsInitialized() -> c_int;
    pub fn PyEval_SaveThread() -> *mut c_void;
    pub fn PyEval_RestoreThread(t: *mut c_void);
    pub fn PyGILState_Ensure() -> c_int;
    pub fn PyGILState_Release(s: c_int);
    pub fn PyGILState_Check() -> c_int;
    pub fn Py_IncRef(o: *mut PyObject);
    pub fn Py_DecRef(o: *mut PyObject);

    pub fn PyErr_GetRaisedException() -> *mut PyObject;
    pub fn PyErr_SetRaisedException(e: *mut PyObject);
    pub fn PyErr_NewException(name: *const c_char, base: *mut PyObject, dict: *mut PyObject) -> *mut PyObject;
    pub fn PyErr_GivenExceptionMatches(e: *mut PyObject, t: *mut PyObject) -> c_int;

    pub fn PyImport_ImportModule(n: *const c_char) -> *mut PyObject;
    pub fn PyImport_GetModuleDict() -> *mut PyObject;
    pub fn PyModule_New(n: *const c_char) -> *mut PyObject;
    pub fn PyModule_GetDict(m: *mut PyObject) -> *mut PyObject;
    pub fn Py_CompileString(s: *const c_char, f: *const c_char, start: c_int) -> *mut PyObject;
    pub fn PyEval_EvalCode(c: *mut PyObject, g: *mut PyObject, l: *mut PyObject) -> *mut PyObject;
    pub fn PyEval_GetBuiltins() -> *mut PyObject;

    pub fn PyObject_GetAttr(o: *mut PyObject, n: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_SetAttr(o: *mut PyObject, n: *mut PyObject, v: *mut PyObject) -> c_int;
    pub fn PyObject_SetAttrString(o: *mut PyObject, n: *const c_char, v: *mut PyObject) -> c_int;
    pub fn PyObject_Call(o: *mut PyObject, a: *mut PyObject, k: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_Str(o: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_Repr(o: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_GetItem(o: *mut PyObject, k: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_Size(o: *mut PyObject) -> Py_ssize_t;
    pub fn PyObject_GetIter(o: *mut PyObject) -> *mut PyObject;
    pub fn PyIter_Next(o: *mut PyObject) -> *mut PyObject;
    pub fn PyObject_RichCompareBool(a: *mut PyObject, b: *mut PyObject, op: c_int) -> c_int;
    pub fn PyObject_IsInstance(a: *mut PyObject, t: *mut PyObject) -> c_int;
    pub fn PyObject_IsTrue(a: *mut PyObject) -> c_int;
    pub fn PySequence_Check(o: *mut PyObject) -> c_int;
    pub fn PyCallable_Check(o: *mut PyObject) -> c_int;
    pub fn PyType_IsSubtype(a: *mut PyTypeObject, b: *mut PyTypeObject) -> c_int;
    pub fn PyType_GenericAlloc(t: *mut PyTypeObject, n: Py_ssize_t) -> *mut PyObject;
    pub fn PyObject_Free(p: *mut c_void);
    pub fn PyType_FromSpec(s: *mut PyType_Spec) -> *mut PyObject;
    pub fn PyType_GetFlags(t: *mut PyTypeObject) -> std::ffi::c_ulong;
    pub fn PyDescr_NewMethod(t: *mut PyTypeObject, d: *mut PyMethodDef) -> *mut PyObject;
    pub fn PyDescr_NewClassMethod(t: *mut PyTypeObject, d: *mut PyMethodDef) -> *mut PyObject;
    pub fn PyDescr_NewGetSet(t: *mut PyTypeObject, d: *mut PyGetSetDef) -> *mut PyObject;
    pub fn PyCFunction_NewEx(d: *mut PyMethodDef, s: *mut PyObject, m: *mut PyObject) -> *mut PyObject;
    pub fn PyStaticMethod_New(f: *mut PyObject) -> *mut PyObject;

    pub fn PyLong_FromLongLong(v: c_longlong) -> *mut PyObject;
    pub fn PyLong_FromUnsignedLongLong(v: c_ulonglong) -> *mut PyObject;
    pub fn PyLong_AsLongLong(o: *mut PyObject) -> c_longlong;
    pub fn PyLong_AsUnsignedLongLong(o: *mut PyObject) -> c_ulonglong;
    pub fn PyNumber_Index(o: *mut PyObject) -> *mut PyObject;
    pub fn PyFloat_FromDouble(v: f64) -> *mut PyObject;
    pub fn PyFloat_AsDouble(o: *mut PyObject) -> f64;
    pub fn PyBool_FromLong(v: c_long) -> *mut PyObject;
    pub fn PyUnicode_FromStringAndSize(s: *const c_char, n: Py_ssize_t) -> *mut PyObject;
    pub fn PyUnicode_AsUTF8AndSize(o: *mut PyObject, n: *mut Py_ssize_t) -> *const c_char;
    pub fn PyBytes_FromStringAndSize(s: *const c_char, n: Py_ssize_t) -> *mut PyObject;
    pub fn PyBytes_AsStringAndSize(o: *mut PyObject, s: *mut *mut c_char, n: *mut Py_ssize_t) -> c_int;
    pub fn PyList_New(n: Py_ssize_t) -> *mut PyObject;
    pub fn PyList_Append(l: *mut PyObject, v: *mut PyObject) -> c_int;
    pub fn PyTuple_New(n: Py_ssize_t) -> *mut PyObject;
    pub fn PyTuple_SetItem(t: *mut PyObject, i: Py_ssize_t, v: *mut PyObject) -> c_int;
    pub fn PyTuple_GetItem(t: *mut PyObject, i: Py_ssize_t) -> *mut PyObject;
    pub fn PyDict_New() -> *mut PyObject;
    pub fn PyDict_SetItem(d: *mut PyObject, k: *mut PyObject, v: *mut PyObject) -> c_int;
    pub fn PyDict_SetItemString(d: *mut PyObject, k: *const c_char, v: *mut PyObject) -> c_int;
    pub fn PyDict_Next(d: *mut PyObject, pos: *mut Py_ssize_t, k: *mut *mut PyObject, v: *mut *mut PyObject) -> c_int;

    pub fn PyObject_CheckBuffer(o: *mut PyObject) -> c_int;
    pub fn PyObject_GetBuffer(o: *mut PyObject, v: *mut Py_buffer, flags: c_int) -> c_int;
    pub fn PyBuffer_Release(v: *mut Py_buffer);
    pub fn PyBuffer_ToContiguous(buf: *mut c_void, v: *const Py_buffer, len: Py_ssize_t, order: c_char) -> c_int;

    pub static mut _Py_NoneStruct: PyObject;
    pub static mut PyUnicode_Type: PyTypeObject;
    pub static mut PyBytes_Type: PyTypeObject;
    pub static mut PyLong_Type: PyTypeObject;
    pub static mut PyBool_Type: PyTypeObject;
    pub static mut PyFloat_Type: PyTypeObject;
    pub static mut PyList_Type: PyTypeObject;
    pub static mut PyTuple_Type: PyTypeObject;
    pub static mut PyDict_Type: PyTypeObject;
    pub static mut PyType_Type: PyTypeObject;

    pub static PyExc_ValueError: *mut PyObject;
    pub static PyExc_TypeError: *mut PyObject;
    pub static PyExc_RuntimeError: *mut PyObject;
    pub static PyExc_RuntimeWarning: *mut PyObject;
    pub static PyExc_KeyError: *mut PyObject;
    pub static PyExc_IndexError: *mut PyObject;
    pub static PyExc_FileNotFoundError: *mut PyObject;
    pub static PyExc_Exception: *mut PyObject;
    pub static PyExc_BaseException: *mut PyObject;
    pub static PyExc_OverflowError: *mut PyObject;
    pub static PyExc_BufferError: *mut PyObject;
    pub static PyExc_NotImplementedError: *mut PyObject;
    pub static PyExc_OSError: *mut PyObject;
    pub static PyExc_AttributeError: *mut PyObject;
    pub static PyExc_StopIteration: *mut PyObject;
    pub static PyExc_MemoryError: *mut PyObject;
}

/// # Safety
/// As in C.
pub unsafe fn Py_NewRef(o: *mut PyObject) -> *mut PyObject {
    Py_INCREF(o);
    o
}
pub unsafe fn Py_XINCREF(o: *mut PyObject) {
    if !o.is_null() {
        Py_INCREF(o)
    }
}
pub unsafe fn Py_INCREF(o: *mut PyObject) {
    Py_IncRef(o)
}
/// # Safety
/// As in C.
pub unsafe fn Py_DECREF(o: *mut PyObject) {
    Py_DecRef(o)
}
/// # Safety
/// As in C.
pub unsafe fn Py_None() -> *mut PyObject {
    &raw mut _Py_NoneStruct
}
