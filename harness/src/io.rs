//! Byte sources under the harness's control.
use std::fmt;
use std::ops::Range;
use std::sync::{Arc, Mutex};

use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::metadata::MetadataFetch;
use async_tiff::reader::AsyncFileReader;
use async_trait::async_trait;
use bytes::Bytes;

use crate::tiffw::SparseFile;

#[derive(Clone, Debug, PartialEq)]
pub enum Req {
    One(Range<u64>),
    Many(Vec<Range<u64>>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    Error,
    /// only the first n bytes
    Truncate(u64),
    /// all but the last n bytes
    Chop(u64),
    Empty,
    None,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Eof {
    /// ranges past the end are cut, starting past the end gives nothing
    Cut,
    /// as object stores: cut, but starting at or past the end is an error
    ErrorAtStart,
    /// any range past the end is an error
    Strict,
}

pub struct Shared {
    pub file: Arc<SparseFile>,
    pub log: Mutex<Vec<Req>>,
    /// fault for the k-th range served, consumed in order of service
    pub faults: Mutex<Box<dyn FnMut(u64) -> Fault + Send>>,
    pub served: Mutex<u64>,
    /// error out after this many ranges (runaway detection)
    pub budget: u64,
    pub eof: Eof,
    pub gate: Option<crate::sched::Gate>,
    /// let other threads run (and the task be polled again) before answering
    pub jitter: bool,
}

impl fmt::Debug for Shared {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Shared")
    }
}

/// In-memory reader with request log. Uses the library's default multi-range method.
#[derive(Clone, Debug)]
pub struct Mem(pub Arc<Shared>);

/// Same, with its own multi-range method (one logged batch).
#[derive(Clone, Debug)]
pub struct MemBatch(pub Arc<Shared>);

/// Same, as a metadata-only source.
#[derive(Clone, Debug)]
pub struct MemMeta(pub Arc<Shared>);

impl Shared {
    pub fn new(file: Arc<SparseFile>) -> Self {
        Shared {
            file,
            log: Mutex::new(vec![]),
            faults: Mutex::new(Box::new(|_| Fault::None)),
            served: Mutex::new(0),
            budget: u64::MAX,
            eof: Eof::Cut,
            gate: None,
            jitter: false,
        }
    }
    pub fn eof(mut self, e: Eof) -> Self {
        self.eof = e;
        self
    }
    pub fn budget(mut self, b: u64) -> Self {
        self.budget = b;
        self
    }
    pub fn gate(mut self, g: crate::sched::Gate) -> Self {
        self.gate = Some(g);
        self
    }
    pub fn jitter(mut self) -> Self {
        self.jitter = true;
        self
    }
    pub fn faults(self, f: impl FnMut(u64) -> Fault + Send + 'static) -> Self {
        *self.faults.lock().unwrap() = Box::new(f);
        self
    }
    pub fn arc(self) -> Arc<Self> {
        Arc::new(self)
    }
    pub fn clear_faults(&self) {
        *self.faults.lock().unwrap() = Box::new(|_| Fault::None);
    }
    pub fn set_faults(&self, f: impl FnMut(u64) -> Fault + Send + 'static) {
        *self.faults.lock().unwrap() = Box::new(f);
        *self.served.lock().unwrap() = 0;
    }
    pub fn take_log(&self) -> Vec<Req> {
        std::mem::take(&mut self.log.lock().unwrap())
    }
    pub fn served(&self) -> u64 {
        *self.served.lock().unwrap()
    }
    pub fn exhausted(&self) -> bool {
        self.served() > self.budget
    }
    pub fn serve(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        let k = {
            let mut s = self.served.lock().unwrap();
            *s += 1;
            *s - 1
        };
        if k >= self.budget {
            return Err(AsyncTiffError::General("harness: request budget exhausted".into()));
        }
        let fault = (self.faults.lock().unwrap())(k);
        let len = self.file.len;
        match self.eof {
            Eof::Cut => {}
            Eof::ErrorAtStart => {
                if range.start >= len && range.start < range.end {
                    return Err(AsyncTiffError::General("harness: range starts past the end".into()));
                }
            }
            Eof::Strict => {
                if range.end > len {
                    return Err(AsyncTiffError::EndOfFile(
                        range.end.saturating_sub(range.start),
                        len.saturating_sub(range.start),
                    ));
                }
            }
        }
        match fault {
            Fault::None => Ok(self.file.read(range)),
            Fault::Error => Err(failure(k, &range)),
            Fault::Empty => Ok(Bytes::new()),
            Fault::Chop(n) => {
                let b = self.file.read(range);
                let n = b.len().saturating_sub(n as usize);
                Ok(b.slice(..n))
            }
            Fault::Truncate(n) => {
                let b = self.file.read(range);
                let n = (n as usize).min(b.len());
                Ok(b.slice(..n))
            }
        }
    }
    async fn wait(&self) {
        if let Some(g) = &self.gate {
            g.io().await
        }
        if self.jitter {
            crate::sched::yield_once().await
        }
    }
}

/// The ways a source says that a read failed.
fn failure(k: u64, range: &Range<u64>) -> AsyncTiffError {
    use std::io::{Error, ErrorKind};
    let n = range.end.saturating_sub(range.start);
    match (k ^ range.start) % 8 {
        0 | 1 => AsyncTiffError::General("harness: injected fault".into()),
        2 => AsyncTiffError::EndOfFile(n, 0),
        3 => AsyncTiffError::EndOfFile(n, n / 2),
        4 => AsyncTiffError::IOError(Error::new(ErrorKind::UnexpectedEof, "harness: injected fault")),
        5 => AsyncTiffError::IOError(Error::other("harness: injected fault")),
        6 => AsyncTiffError::External("harness: injected fault".into()),
        _ => AsyncTiffError::IOError(Error::new(ErrorKind::NotFound, "harness: injected fault")),
    }
}

#[async_trait]
impl AsyncFileReader for Mem {
    async fn get_bytes(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        self.0.log.lock().unwrap().push(Req::One(range.clone()));
        self.0.wait().await;
        self.0.serve(range)
    }
}

#[async_trait]
impl AsyncFileReader for MemBatch {
    async fn get_bytes(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        self.0.log.lock().unwrap().push(Req::One(range.clone()));
        self.0.wait().await;
        self.0.serve(range)
    }
    async fn get_byte_ranges(&self, ranges: Vec<Range<u64>>) -> AsyncTiffResult<Vec<Bytes>> {
        self.0.log.lock().unwrap().push(Req::Many(ranges.clone()));
        self.0.wait().await;
        ranges.into_iter().map(|r| self.0.serve(r)).collect()
    }
}

#[async_trait]
impl MetadataFetch for MemMeta {
    async fn fetch(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        self.0.log.lock().unwrap().push(Req::One(range.clone()));
        self.0.wait().await;
        self.0.serve(range)
    }
}
