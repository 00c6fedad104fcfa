//! Futures across the language border. A Rust future handed to Python has run to its end
//! by the time the awaitable is returned; a Python awaitable is driven by `send(None)`.
pub mod tokio {
    use pyo3::ffi;
    use pyo3::{Bound, IntoPyObject, Py, PyAny, PyErr, PyResult, Python};
    use std::ffi::CString;
    use std::future::Future;

    const HELPERS: &str = "
class Done:
    def __init__(self, value, error):
        self.value, self.error = value, error
    def __await__(self):
        if self.error is not None:
            raise self.error
        return self.value
        yield
def start(awaitable):
    return awaitable.__await__()
def step(iterator):
    try:
        next(iterator)
        return False, None
    except StopIteration as e:
        return True, e.value
";

    fn helpers(py: Python<'_>) -> PyResult<Bound<'_, PyAny>> {
        static H: std::sync::OnceLock<Py<PyAny>> = std::sync::OnceLock::new();
        if H.get().is_none() {
            let d = pyo3::types::PyDict::new(py);
            let s = CString::new(HELPERS).unwrap();
            unsafe {
                ffi::PyDict_SetItemString(d.as_ptr(), c"__builtins__".as_ptr(), ffi::PyEval_GetBuiltins());
                ffi::PyDict_SetItemString(d.as_ptr(), c"__name__".as_ptr(), pyo3::types::PyString::new(py, "vh").as_ptr());
                let c = py.owned(ffi::Py_CompileString(s.as_ptr(), c"vh".as_ptr(), 257))?;
                py.owned(ffi::PyEval_EvalCode(c.as_ptr(), d.as_ptr(), d.as_ptr()))?;
            }
            let _ = H.set(d.into_any().unbind());
        }
        Ok(H.get().unwrap().bind(py).clone())
    }

    pub fn future_into_py<'py, F, T>(py: Python<'py>, fut: F) -> PyResult<Bound<'py, PyAny>>
    where
        F: Future<Output = PyResult<T>> + Send + 'static,
        T: for<'p> IntoPyObject<'p> + Send + 'static,
    {
        let r = py.detach(|| {
            let rt = ::tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(fut)))
        });
        let r = match r {
            Ok(r) => r,
            Err(p) => {
                // a panic inside the future becomes a RustPanic exception when awaited
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
                Err(PyErr::lazy("PanicException", pyo3::impl_::panic_type, m.unwrap_or_default()))
            }
        };
        let done = helpers(py)?.get_item("Done")?;
        match r.and_then(|v| v.into_pyobject(py).map(Into::into).map_err(Into::into)) {
            Ok(v) => {
                let v: Bound<'py, PyAny> = v;
                done.call1((v, py.none()))
            }
            Err(e) => done.call1((py.none(), e)),
        }
    }

    pub fn into_future(awaitable: Bound<'_, PyAny>) -> PyResult<impl Future<Output = PyResult<Py<PyAny>>> + Send> {
        let py = awaitable.py();
        let it = helpers(py)?.get_item("start")?.call1((awaitable,))?.unbind();
        Ok(async move {
            loop {
                let r = Python::attach(|py| -> PyResult<Option<Py<PyAny>>> {
                    let (done, v): (bool, Py<PyAny>) = helpers(py)?.get_item("step")?.call1((it.bind(py),))?.extract()?;
                    Ok(done.then_some(v))
                })?;
                if let Some(v) = r {
                    return Ok(v);
                }
                ::tokio::task::yield_now().await;
            }
        })
    }
}
