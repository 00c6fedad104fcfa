//! Stores made in Rust. A Python object stands for one by its `vh_store` number.
use object_store::ObjectStore;
use pyo3::types::PyModule;
use pyo3::{Borrowed, Bound, FromPyObject, PyAny, PyErr, PyResult, Python};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

static STORES: Mutex<Option<(u64, HashMap<u64, Arc<dyn ObjectStore>>)>> = Mutex::new(None);

pub fn register(s: Arc<dyn ObjectStore>) -> u64 {
    let mut g = STORES.lock().unwrap();
    let (n, m) = g.get_or_insert_with(Default::default);
    *n += 1;
    m.insert(*n, s);
    *n
}
pub fn forget(n: u64) {
    if let Some((_, m)) = STORES.lock().unwrap().as_mut() {
        m.remove(&n);
    }
}

#[derive(Debug, Clone)]
pub struct PyObjectStore(Arc<dyn ObjectStore>);
impl PyObjectStore {
    pub fn into_inner(self) -> Arc<dyn ObjectStore> {
        self.0
    }
    pub fn into_dyn(self) -> Arc<dyn ObjectStore> {
        self.0
    }
}
impl AsRef<Arc<dyn ObjectStore>> for PyObjectStore {
    fn as_ref(&self) -> &Arc<dyn ObjectStore> {
        &self.0
    }
}
impl<'py> FromPyObject<'_, 'py> for PyObjectStore {
    type Error = PyErr;
    fn extract(obj: Borrowed<'_, 'py, PyAny>) -> Result<Self, PyErr> {
        let n: u64 = obj.getattr("vh_store")?.extract()?;
        let g = STORES.lock().unwrap();
        let s = g.as_ref().and_then(|(_, m)| m.get(&n)).cloned();
        s.map(Self).ok_or_else(|| pyo3::exceptions::PyValueError::new_err("unknown store"))
    }
}

pub fn register_store_module(_py: Python<'_>, m: &Bound<'_, PyModule>, _parent: &str, name: &str) -> PyResult<()> {
    m.setattr(name, _py.none())
}
pub fn register_exceptions_module(_py: Python<'_>, m: &Bound<'_, PyModule>, _parent: &str, name: &str) -> PyResult<()> {
    m.setattr(name, _py.none())
}
