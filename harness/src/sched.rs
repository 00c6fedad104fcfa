//! Deterministic executor: the harness owns the schedule.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use crate::engine::{sut, Src};

struct Flag {
    ready: AtomicBool,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.ready.store(true, Ordering::SeqCst);
    }
}

#[derive(Default)]
struct GateInner {
    next: AtomicU64,
    pending: Mutex<Vec<(u64, Waker)>>,
    done: Mutex<std::collections::HashSet<u64>>,
}

/// I/O gate: every request waits until the scheduler completes it.
#[derive(Clone, Default)]
pub struct Gate(Arc<GateInner>);

pub struct Io {
    gate: Gate,
    id: Option<u64>,
}

impl Gate {
    pub fn io(&self) -> Io {
        Io { gate: self.clone(), id: None }
    }
    pub fn pending(&self) -> Vec<u64> {
        self.0.pending.lock().unwrap().iter().map(|p| p.0).collect()
    }
    pub fn complete(&self, id: u64) {
        let mut p = self.0.pending.lock().unwrap();
        if let Some(i) = p.iter().position(|x| x.0 == id) {
            let (_, w) = p.remove(i);
            drop(p);
            self.0.done.lock().unwrap().insert(id);
            w.wake();
        }
    }
}

impl Future for Io {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let g = self.gate.clone();
        match self.id {
            None => {
                let id = g.0.next.fetch_add(1, Ordering::SeqCst);
                self.id = Some(id);
                g.0.pending.lock().unwrap().push((id, cx.waker().clone()));
                Poll::Pending
            }
            Some(id) => {
                if g.0.done.lock().unwrap().remove(&id) {
                    self.id = Some(u64::MAX);
                    Poll::Ready(())
                } else {
                    let mut p = g.0.pending.lock().unwrap();
                    if let Some(e) = p.iter_mut().find(|e| e.0 == id) {
                        e.1 = cx.waker().clone();
                    }
                    Poll::Pending
                }
            }
        }
    }
}

impl Drop for Io {
    fn drop(&mut self) {
        if let Some(id) = self.id {
            self.gate.0.pending.lock().unwrap().retain(|e| e.0 != id);
        }
    }
}

pub struct Task<'a> {
    pub fut: Pin<Box<dyn Future<Output = ()> + 'a>>,
    pub cancellable: bool,
}

#[derive(Default, Debug)]
pub struct SchedStats {
    pub polls: u64,
    pub completions: u64,
    pub cancelled: u64,
    pub switches: u64,
    pub max_pending: usize,
}

/// Run the tasks to completion under a schedule chosen by `s`.
/// Err = the code under test panicked or the tasks are stuck.
pub fn run_tasks(s: &mut Src, gate: &Gate, tasks: Vec<Task<'_>>) -> Result<SchedStats, String> {
    let mut st = SchedStats::default();
    let n = tasks.len();
    let mut slots: Vec<Option<Task<'_>>> = tasks.into_iter().map(Some).collect();
    let flags: Vec<Arc<Flag>> =
        (0..n).map(|_| Arc::new(Flag { ready: AtomicBool::new(true) })).collect();
    let mut last = usize::MAX;
    // how eager the schedule is to preempt, complete I/O early, etc.
    let io_bias = s.int(1, 4);
    let spurious = s.chance(1, 4);
    let mut steps = 0u64;
    loop {
        let alive: Vec<usize> = (0..n).filter(|i| slots[*i].is_some()).collect();
        if alive.is_empty() {
            return Ok(st);
        }
        steps += 1;
        if steps > 200_000 {
            return Err("tasks did not finish within 200000 scheduling steps".into());
        }
        let ready: Vec<usize> =
            alive.iter().copied().filter(|i| flags[*i].ready.load(Ordering::SeqCst)).collect();
        let pend = gate.pending();
        st.max_pending = st.max_pending.max(pend.len());
        if ready.is_empty() && pend.is_empty() {
            return Err(format!(
                "deadlock: tasks {alive:?} are waiting, but no I/O is outstanding and nothing will wake them"
            ));
        }
        // cancel?
        let cancellable: Vec<usize> =
            alive.iter().copied().filter(|i| slots[*i].as_ref().unwrap().cancellable).collect();
        if !cancellable.is_empty() && s.chance(1, 6) {
            let i = *s.pick(&cancellable);
            let t = slots[i].take();
            sut("dropping a task", move || drop(t))?;
            st.cancelled += 1;
            continue;
        }
        let do_io = if ready.is_empty() {
            true
        } else if pend.is_empty() {
            false
        } else {
            s.upto(4) < io_bias
        };
        if do_io {
            let id = *s.pick(&pend);
            gate.complete(id);
            st.completions += 1;
            continue;
        }
        let i = if spurious && s.chance(1, 10) { *s.pick(&alive) } else { *s.pick(&ready) };
        flags[i].ready.store(false, Ordering::SeqCst);
        if i != last {
            st.switches += 1;
        }
        last = i;
        st.polls += 1;
        let waker: Waker = flags[i].clone().into();
        let t = slots[i].as_mut().unwrap();
        let done = sut("task", || {
            let mut cx = Context::from_waker(&waker);
            t.fut.as_mut().poll(&mut cx).is_ready()
        })?;
        if done {
            let t = slots[i].take();
            drop(t);
        }
    }
}

/// Drive one future whose I/O is immediate. Err = panic or stuck.
pub fn block_on<T>(what: &str, fut: impl Future<Output = T>) -> Result<T, String> {
    let flag = Arc::new(Flag { ready: AtomicBool::new(true) });
    let waker: Waker = flag.clone().into();
    let mut fut = Box::pin(fut);
    let mut cx = Context::from_waker(&waker);
    for _ in 0..10_000_000u64 {
        if !flag.ready.swap(false, Ordering::SeqCst) {
            return Err(format!("{what}: waits forever (never woken)"));
        }
        match sut(what, || fut.as_mut().poll(&mut cx))? {
            Poll::Ready(v) => return Ok(v),
            Poll::Pending => {}
        }
    }
    Err(format!("{what}: did not finish after 10M polls"))
}

/// Let other threads run, then ask to be polled again.
pub async fn yield_once() {
    let mut done = false;
    std::future::poll_fn(|cx| {
        if done {
            return Poll::Ready(());
        }
        done = true;
        std::thread::yield_now();
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await
}

struct Unpark(std::thread::Thread);

impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark()
    }
}

/// Run a future on this thread while others run theirs. (A future that is never woken stalls the case, which the
/// supervisor notices.)
pub fn block_on_parked<T>(what: &str, fut: impl Future<Output = T>) -> Result<T, String> {
    let waker: Waker = Arc::new(Unpark(std::thread::current())).into();
    let mut fut = Box::pin(fut);
    let mut cx = Context::from_waker(&waker);
    loop {
        match sut(what, || fut.as_mut().poll(&mut cx))? {
            Poll::Ready(v) => return Ok(v),
            Poll::Pending => std::thread::park(),
        }
    }
}

/// Run the jobs on threads of their own, started together; the first failure if any.
pub fn on_threads<'a>(jobs: Vec<Box<dyn FnOnce() -> Result<(), String> + Send + 'a>>) -> Result<(), String> {
    let barrier = std::sync::Barrier::new(jobs.len());
    let mut out = vec![];
    std::thread::scope(|sc| {
        let hs: Vec<_> = jobs
            .into_iter()
            .map(|j| {
                let barrier = &barrier;
                sc.spawn(move || {
                    barrier.wait();
                    j()
                })
            })
            .collect();
        for h in hs {
            out.push(h.join().unwrap_or_else(|_| Err("HARNESS: a thread of the harness panicked".into())));
        }
    });
    out.into_iter().collect()
}
