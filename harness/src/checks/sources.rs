//! Byte sources: C14.
use std::cell::RefCell;
use std::io::{Read, Write};
use std::ops::Range;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;

use async_tiff::error::AsyncTiffResult;
use async_tiff::reader::{AsyncFileReader, ObjectReader, ReqwestReader, TokioReader};
use bytes::Bytes;
use object_store::ObjectStoreExt;
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};

use super::*;
use crate::io::*;

pub const C14: Check = Check {
    id: "C14",
    f: c14,
    quick: 300_000,
    thorough: 8_000_000,
    level: "exploration",
    rule: "non-trivial if at least one range holds two bytes or more of the file",
    assumptions: &[
        "the HTTP server is the harness's own, on the loopback interface; a 206 answer is assumed to hold the range asked for",
        "an object store may refuse an empty range; a range past the end may be cut or refused",
    ],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

// ---------- a fragmenting stream ----------

/// A stream that answers in pieces, pauses and fails.
#[derive(Debug)]
pub struct Frag {
    data: Bytes,
    /// bytes before `data`
    base: u64,
    pos: u64,
    seek_to: Option<u64>,
    rng: u64,
    /// largest piece
    piece: u64,
    /// pending one time in n (0 never)
    pause: u64,
    /// operations (seek and read) until the next failure
    pub fail: Arc<Mutex<Vec<u64>>>,
    ops: u64,
    pub failed: Arc<Mutex<u64>>,
}

impl Frag {
    pub fn new(data: Bytes, seed: u64, piece: u64, pause: u64, fail: Vec<u64>) -> Self {
        Frag {
            data,
            base: 0,
            pos: 0,
            seek_to: None,
            rng: seed,
            piece,
            pause,
            fail: Arc::new(Mutex::new(fail)),
            ops: 0,
            failed: Default::default(),
        }
    }
    pub fn at(mut self, base: u64) -> Self {
        self.base = base;
        self
    }
    fn len(&self) -> u64 {
        self.base + self.data.len() as u64
    }
    fn step(&mut self) -> Result<(), std::io::Error> {
        self.ops += 1;
        if self.fail.lock().unwrap().contains(&self.ops) {
            *self.failed.lock().unwrap() += 1;
            return Err(std::io::Error::other("harness: stream fault"));
        }
        Ok(())
    }
    fn paused(&mut self, cx: &mut Context<'_>) -> bool {
        if self.pause > 0 && splitmix(&mut self.rng) % self.pause == 0 {
            cx.waker().wake_by_ref();
            return true;
        }
        false
    }
}

impl AsyncRead for Frag {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        if self.paused(cx) {
            return Poll::Pending;
        }
        if let Err(e) = self.step() {
            return Poll::Ready(Err(e));
        }
        let left = self.len().saturating_sub(self.pos);
        let want = (buf.remaining() as u64).min(left);
        if want > 0 {
            let n = 1 + splitmix(&mut self.rng) % want.min(self.piece);
            if self.pos < self.base {
                let n = n.min(self.base - self.pos).min(4096);
                buf.put_slice(&vec![0xA5; n as usize]);
                self.pos += n;
            } else {
                let p = (self.pos - self.base) as usize;
                let chunk = self.data.slice(p..p + n as usize);
                buf.put_slice(&chunk);
                self.pos += n;
            }
        }
        Poll::Ready(Ok(()))
    }
}

impl AsyncSeek for Frag {
    fn start_seek(mut self: Pin<&mut Self>, position: std::io::SeekFrom) -> std::io::Result<()> {
        self.step()?;
        let p = match position {
            std::io::SeekFrom::Start(p) => p as i128,
            std::io::SeekFrom::Current(d) => self.pos as i128 + d as i128,
            std::io::SeekFrom::End(d) => self.len() as i128 + d as i128,
        };
        if p < 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "negative seek"));
        }
        self.seek_to = Some(p as u64);
        Ok(())
    }
    fn poll_complete(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<u64>> {
        if self.paused(cx) {
            return Poll::Pending;
        }
        if let Some(p) = self.seek_to.take() {
            self.pos = p;
        }
        Poll::Ready(Ok(self.pos))
    }
}

// ---------- an HTTP server ----------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Http {
    /// honours the range
    Partial,
    /// the same, chunked transfer
    PartialChunked,
    /// ignores the range
    Full,
    FullChunked,
    /// redirects once, then honours the range
    Redirect,
    Status(u16),
    /// announces more than it sends
    CutPartial,
    CutFull,
}

#[derive(Default)]
struct Served {
    data: Bytes,
    base: u64,
    modes: Vec<Http>,
    /// number of the call under way
    call: u64,
    /// ranges that were answered badly since the call began
    failed: Vec<Range<u64>>,
}

impl Served {
    /// Depends on the request alone, not on when it arrives: a request that an earlier call gave
    /// up on, or that is repeated, changes nothing.
    fn mode(&self, r: &Range<u64>) -> Http {
        match self.modes.len() as u64 {
            0 => Http::Partial,
            n => self.modes[(r.start.wrapping_add(r.end.wrapping_mul(3)).wrapping_add(self.call) % n) as usize],
        }
    }
}

struct Server {
    url: String,
    state: Arc<Mutex<Served>>,
}

fn answer(sock: &mut std::net::TcpStream, state: &Mutex<Served>) -> std::io::Result<()> {
    sock.set_read_timeout(Some(Duration::from_secs(10)))?;
    sock.set_nodelay(true)?;
    let mut head = vec![];
    let mut buf = [0u8; 2048];
    while !head.windows(4).any(|w| w == b"\r\n\r\n") {
        let n = sock.read(&mut buf)?;
        if n == 0 {
            return Ok(());
        }
        head.extend_from_slice(&buf[..n]);
    }
    let text = String::from_utf8_lossy(&head).to_lowercase();
    let path_b = text.starts_with("get /b");
    let range = text.lines().find_map(|l| {
        let v = l.strip_prefix("range:")?.trim();
        let (a, b) = v.strip_prefix("bytes=")?.split_once('-')?;
        Some((a.trim().parse::<u64>().ok()?, b.trim().parse::<u64>().ok()))
    });
    let (data, mode, base) = {
        let mut g = state.lock().unwrap();
        let asked = match range {
            Some((a, b)) => a..b.map_or(u64::MAX, |b| b.saturating_add(1)),
            None => 0..0,
        };
        let m = g.mode(&asked);
        if bad(m) {
            g.failed.push(asked);
        }
        (g.data.clone(), m, g.base)
    };
    let len = base + data.len() as u64;
    let send = |sock: &mut std::net::TcpStream, status: &str, extra: &str, body: &[u8], chunked: bool, announce: usize| {
        let mut o = format!("HTTP/1.1 {status}\r\nConnection: close\r\n{extra}");
        if chunked {
            o.push_str("Transfer-Encoding: chunked\r\n\r\n");
            sock.write_all(o.as_bytes())?;
            for c in body.chunks(7) {
                sock.write_all(format!("{:x}\r\n", c.len()).as_bytes())?;
                sock.write_all(c)?;
                sock.write_all(b"\r\n")?;
            }
            sock.write_all(b"0\r\n\r\n")
        } else {
            o.push_str(&format!("Content-Length: {announce}\r\n\r\n"));
            sock.write_all(o.as_bytes())?;
            sock.write_all(body)
        }
    };
    let cut = |b: &Bytes| b.slice(..b.len() / 2);
    match mode {
        Http::Status(c) => send(sock, &format!("{c} Nope"), "", b"no such luck", false, 12),
        Http::Full | Http::FullChunked => send(sock, "200 OK", "", &data, mode == Http::FullChunked, data.len()),
        Http::CutFull => send(sock, "200 OK", "", &cut(&data), false, data.len() + 3),
        Http::Redirect if !path_b => send(sock, "302 Found", "Location: /b\r\n", b"", false, 0),
        _ => match range {
            None => send(sock, "200 OK", "", &data, false, data.len()),
            Some((a, b)) => {
                let b = b.unwrap_or(u64::MAX).min(len.saturating_sub(1));
                if a >= len || b < a {
                    return send(sock, "416 Range Not Satisfiable", &format!("Content-Range: bytes */{len}\r\n"), b"", false, 0);
                }
                let body = if a >= base {
                    data.slice((a - base) as usize..(b - base) as usize + 1)
                } else {
                    Bytes::from(vec![0xA5; (b + 1 - a).min(1 << 20) as usize])
                };
                let cr = format!("Content-Range: bytes {a}-{b}/{len}\r\n");
                if mode == Http::CutPartial {
                    let part = cut(&body);
                    return send(sock, "206 Partial Content", &cr, &part, false, body.len() + 1);
                }
                send(sock, "206 Partial Content", &cr, &body, mode == Http::PartialChunked, body.len())
            }
        },
    }
}

impl Server {
    fn start() -> Server {
        let l = std::net::TcpListener::bind("127.0.0.1:0").expect("loopback");
        let url = format!("http://{}/a", l.local_addr().unwrap());
        let state: Arc<Mutex<Served>> = Default::default();
        let st = state.clone();
        std::thread::spawn(move || {
            for s in l.incoming() {
                if let Ok(mut s) = s {
                    let _ = answer(&mut s, &st);
                    // let the peer read everything before the socket goes away
                    let _ = s.shutdown(std::net::Shutdown::Write);
                    let _ = s.set_read_timeout(Some(Duration::from_millis(200)));
                    let _ = s.read(&mut [0u8; 64]);
                }
            }
        });
        Server { url, state }
    }
}

struct Env {
    rt: tokio::runtime::Runtime,
    http: Option<(Server, reqwest::Client)>,
    dir: Option<std::path::PathBuf>,
    n: u64,
}

impl Drop for Env {
    fn drop(&mut self) {
        if let Some(d) = &self.dir {
            let _ = std::fs::remove_dir_all(d);
        }
    }
}

impl Env {
    /// A file of `base` unwritten bytes followed by `data`.
    fn file(&mut self, data: &[u8], base: u64) -> std::path::PathBuf {
        let d = self.dir.get_or_insert_with(|| {
            let d = std::env::temp_dir().join(format!("vh-c14-{}-{:?}", std::process::id(), std::thread::current().id()));
            std::fs::create_dir_all(&d).unwrap();
            d
        });
        self.n += 1;
        let p = d.join(format!("f{}.bin", self.n % 16));
        let mut f = std::fs::File::create(&p).unwrap();
        if base > 0 {
            use std::io::Seek;
            f.seek(std::io::SeekFrom::Start(base)).unwrap();
        }
        f.write_all(data).unwrap();
        p
    }
}

thread_local! {
    static ENV: RefCell<Option<Env>> = const { RefCell::new(None) };
}

fn with_env<T>(f: impl FnOnce(&mut Env) -> T) -> T {
    ENV.with(|e| {
        let mut g = e.borrow_mut();
        let env = g.get_or_insert_with(|| Env {
            rt: tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap(),
            http: None,
            dir: None,
            n: 0,
        });
        f(env)
    })
}

// ---------- the check ----------

#[derive(Clone, Copy, PartialEq)]
struct Rules {
    /// faults are possible: an error is acceptable anywhere
    faults: bool,
    empty_may_fail: bool,
    /// every answer must be an error
    must_fail: bool,
}

fn judge(what: &str, data: &Bytes, ranges: &[Range<u64>], got: AsyncTiffResult<Vec<Bytes>>, ru: Rules) -> R {
    let len = data.len() as u64;
    match got {
        Ok(v) => {
            ensure(!ru.must_fail, || format!("{what}: {ranges:?} succeeded although the source failed"))?;
            ensure(v.len() == ranges.len(), || format!("{what}: {} answers for {} ranges", v.len(), ranges.len()))?;
            for (r, b) in ranges.iter().zip(&v) {
                let e = r.end.min(len);
                let s = r.start.min(e);
                let w = data.slice(s as usize..e as usize);
                let inside = r.end <= len;
                let fine = if inside { b == &w } else { b.len() <= w.len() && b[..] == w[..b.len()] };
                ensure(fine, || {
                    format!("{what}: range {r:?} of {len} bytes (among {ranges:?}) answered {} bytes: {}", b.len(), first_diff(b, &w))
                })?;
            }
            Ok(())
        }
        Err(e) => {
            if ru.must_fail || ru.faults {
                return Ok(());
            }
            let excuse = ranges.iter().any(|r| r.end > len || (r.is_empty() && ru.empty_may_fail));
            ensure(excuse, || format!("{what}: ranges {ranges:?} of {len} bytes failed: {e}"))
        }
    }
}

fn c14(s: &mut Src, cx: &mut Cx) -> R {
    let len = match s.upto(7) {
        0 => 0,
        1 => s.us(1, 4),
        2 if s.chance(1, 1500) => s.us(8_000_000, 20_000_000),
        2 if s.chance(1, 200) => s.us(1_000_000, 4_000_000),
        2 if s.chance(1, 20) => s.us(60_000, 300_000),
        2 => s.us(5_000, 40_000),
        _ => s.us(1, 400),
    };
    let k = s.upto(250) as u8;
    let data = Bytes::from((0..len).map(|i| (i as u8) ^ ((i >> 8) as u8).wrapping_mul(37) ^ k).collect::<Vec<u8>>());
    let len = len as u64;
    let kind = s.weighted(&[20, 4, 3, 3, 3, 4]);
    // what is asked for may lie beyond what 31, 32 or more bits can count; ranges are relative to it
    let base = if !matches!(kind, 1 | 3) && s.chance(1, 8) {
        cx.label("far into the source");
        match s.upto(2) {
            0 => (1u64 << s.int(31, 34)) - s.upto(300),
            1 => s.int(1 << 31, 1 << 34),
            // (file systems have their limits)
            _ if kind == 2 || kind == 4 => (1 << 33) + s.upto(1 << 33),
            _ => (1u64 << s.int(35, 61)) + s.upto(1 << 20),
        }
    } else {
        0
    };
    let far = |r: &Range<u64>| r.start + base..r.end + base;
    let fars = |v: &[Range<u64>]| -> Vec<Range<u64>> { v.iter().map(far).collect() };
    // calls: each a list of ranges, asked one by one or together
    let ncalls = s.us(1, 5);
    let mut calls: Vec<(bool, Vec<Range<u64>>)> = vec![];
    for _ in 0..ncalls {
        let n = if len < 1_000_000 && s.chance(1, 50) { s.us(6, 120) } else { s.us(0, 5) };
        // all within the source, so that the call has to succeed
        let within = s.chance(if n > 5 { 4 } else { 1 }, 5);
        let mut v: Vec<Range<u64>> = vec![];
        for _ in 0..n {
            let r = match s.upto(9) {
                0..=2 if within => {
                    let a = s.upto(len);
                    if len > 0 && s.bool() { 0..a + u64::from(a == 0) } else { a.min(len.saturating_sub(1))..len }
                }
                0 => {
                    let a = s.upto(len);
                    a..a
                }
                1 => s.upto(len)..len + s.int(1, 20),
                2 => {
                    let a = len + s.upto(9);
                    a..a + s.int(1, 9)
                }
                3 => 0..len,
                4 if !v.is_empty() => v[v.len() - 1].clone(),
                5 if !v.is_empty() && v[v.len() - 1].end < len => {
                    let a = v[v.len() - 1].end;
                    a..(a + s.upto(30)).min(len)
                }
                _ => {
                    let a = s.upto(len);
                    a..(a + s.upto(60)).min(len)
                }
            };
            v.push(r);
        }
        calls.push((s.bool(), v));
    }
    if calls.iter().any(|c| c.1.iter().any(|r| r.end.min(len) > r.start + 1)) {
        cx.nontrivial();
    }
    let wrap = s.upto(2);
    let mut ru = Rules { faults: false, empty_may_fail: false, must_fail: false };
    let wrapped = |r: Box<dyn AsyncFileReader>| -> Box<dyn AsyncFileReader> {
        match wrap {
            1 => Box::new(r) as Box<dyn AsyncFileReader>,
            2 => Box::new(Arc::<dyn AsyncFileReader>::from(r)) as Box<dyn AsyncFileReader>,
            _ => r,
        }
    };
    let show = |what: &str, cx: &mut Cx| {
        cx.note(|| format!("{what}, {len} bytes at {base}, wrapping {wrap}, calls (together?, ranges) {calls:?}"));
        cx.label(what.to_string());
    };
    match kind {
        0 => {
            let fail: Vec<u64> = if s.chance(1, 3) { (0..s.us(1, 3)).map(|_| s.int(1, 40)).collect() } else { vec![] };
            let piece = *s.pick(&[1u64 << 40, 1, 3, 17, 4096]);
            let piece = if len > 1_000_000 { piece.max(4096) } else { piece };
            let pause = *s.pick(&[0u64, 2, 5]);
            show("tokio stream", cx);
            cx.note(|| format!("pieces up to {piece}, pause 1/{pause}, failing operations {fail:?}"));
            let f = Frag::new(data.clone(), s.seed(), piece, pause, fail).at(base);
            let failed = f.failed.clone();
            let rd = wrapped(Box::new(TokioReader::new(f)));
            for (together, v) in &calls {
                if *together {
                    let before = *failed.lock().unwrap();
                    let r = block_on("get_byte_ranges", rd.get_byte_ranges(fars(v)))?;
                    ru.faults = *failed.lock().unwrap() > before;
                    judge("tokio stream", &data, v, r, Rules { must_fail: ru.faults, ..ru })?;
                } else {
                    for r in v {
                        let before = *failed.lock().unwrap();
                        let got = block_on("get_bytes", rd.get_bytes(far(r)))?;
                        ru.faults = *failed.lock().unwrap() > before;
                        judge("tokio stream", &data, std::slice::from_ref(r), got.map(|b| vec![b]), Rules { must_fail: ru.faults, ..ru })?;
                    }
                }
            }
            Ok(())
        }
        1 => {
            // the default multi-range method over a plain reader, with faults
            let sh = Shared::new(Arc::new(SparseFile::dense(data.clone()))).arc();
            show("default multi-range method", cx);
            let rd = wrapped(Box::new(Mem(sh.clone())));
            for (together, v) in &calls {
                let bad = if !v.is_empty() && s.chance(1, 4) { Some(s.upto(v.len() as u64 - 1)) } else { None };
                sh.set_faults(move |k| if Some(k) == bad { Fault::Error } else { Fault::None });
                if *together {
                    let r = block_on("get_byte_ranges", rd.get_byte_ranges(fars(v)))?;
                    judge("default multi-range", &data, v, r, Rules { must_fail: bad.is_some(), ..ru })?;
                } else {
                    for (i, r) in v.iter().enumerate() {
                        let got = block_on("get_bytes", rd.get_bytes(far(r)))?;
                        judge("plain reader", &data, std::slice::from_ref(r), got.map(|b| vec![b]), Rules { must_fail: bad == Some(i as u64), ..ru })?;
                    }
                }
            }
            Ok(())
        }
        2 => {
            show("tokio file", cx);
            with_env(|env| {
                let path = env.file(&data, base);
                let f = env.rt.block_on(tokio::fs::File::open(&path)).map_err(|e| format!("HARNESS:{e}"))?;
                let rd = wrapped(Box::new(TokioReader::new(f)));
                run_calls("tokio file", &env.rt, &*rd, &data, &calls, base, ru)
            })
        }
        3 => {
            show("object store in memory", cx);
            with_env(|env| {
                let store: Arc<dyn object_store::ObjectStore> = Arc::new(object_store::memory::InMemory::new());
                let p = object_store::path::Path::from("dir/a.tif");
                env.rt.block_on(store.put(&p, data.clone().into())).map_err(|e| format!("HARNESS:{e}"))?;
                let other = object_store::path::Path::from("dir/b.tif");
                env.rt.block_on(store.put(&other, vec![0xEEu8; data.len() + 50].into())).map_err(|e| format!("HARNESS:{e}"))?;
                ru.empty_may_fail = true;
                let gone = s.chance(1, 8);
                let p = if gone { object_store::path::Path::from("dir/none.tif") } else { p };
                let rd = wrapped(Box::new(ObjectReader::new(store, p)));
                if gone {
                    let calls: Vec<_> = calls.iter().filter(|c| !c.1.is_empty()).cloned().collect();
                    return run_calls("missing object", &env.rt, &*rd, &data, &calls, base, Rules { must_fail: true, ..ru });
                }
                run_calls("object store", &env.rt, &*rd, &data, &calls, base, ru)
            })
        }
        4 => {
            show("object store on disk", cx);
            with_env(|env| {
                let path = env.file(&data, base);
                let store = Arc::new(
                    object_store::local::LocalFileSystem::new_with_prefix(path.parent().unwrap())
                        .map_err(|e| format!("HARNESS:{e}"))?,
                );
                let p = object_store::path::Path::from(path.file_name().unwrap().to_str().unwrap());
                ru.empty_may_fail = true;
                let rd = wrapped(Box::new(ObjectReader::new(store, p)));
                run_calls("object store on disk", &env.rt, &*rd, &data, &calls, base, ru)
            })
        }
        _ => {
            let modes: Vec<Http> = (0..s.us(1, 3))
                .map(|_| match s.upto(11) {
                    // a whole answer would be too long
                    4 | 5 | 6 | 11 if base > 0 => Http::Partial,
                    0 | 1 | 2 => Http::Partial,
                    3 => Http::PartialChunked,
                    4 | 5 => Http::Full,
                    6 => Http::FullChunked,
                    7 => Http::Redirect,
                    8 | 9 => Http::Status(*s.pick(&[404u16, 403, 500, 503, 416, 400])),
                    10 => Http::CutPartial,
                    _ => Http::CutFull,
                })
                .collect();
            show("HTTP", cx);
            cx.note(|| format!("server behaviour {modes:?}"));
            with_env(|env| {
                let (srv, client) = env.http.get_or_insert_with(|| {
                    (Server::start(), reqwest::Client::builder().no_proxy().build().expect("client"))
                });
                {
                    let mut g = srv.state.lock().unwrap();
                    *g = Served { data: data.clone(), base, modes: modes.clone(), ..Default::default() };
                }
                let st = srv.state.clone();
                let url: reqwest::Url = srv.url.parse().unwrap();
                let rd = wrapped(Box::new(ReqwestReader::new(client.clone(), url)));
                // a bad answer to one of the ranges asked for must fail the call; one to any other
                // request (merged ranges, ones of an earlier call) may
                let rules = |v: &[Range<u64>]| {
                    let mut g = st.lock().unwrap();
                    g.call += 1;
                    let failed = std::mem::take(&mut g.failed);
                    let asked = fars(v);
                    Rules { must_fail: failed.iter().any(|f| asked.contains(f)), faults: !failed.is_empty(), ..ru }
                };
                for (together, v) in &calls {
                    if *together {
                        let got = sut("get_byte_ranges", || env.rt.block_on(rd.get_byte_ranges(fars(v))))?;
                        judge("HTTP", &data, v, got, rules(v))?;
                    } else {
                        for r in v {
                            let got = sut("get_bytes", || env.rt.block_on(rd.get_bytes(far(r))))?;
                            judge("HTTP", &data, std::slice::from_ref(r), got.map(|b| vec![b]), rules(std::slice::from_ref(r)))?;
                        }
                    }
                }
                Ok(())
            })
        }
    }
}

fn bad(m: Http) -> bool {
    matches!(m, Http::Status(_) | Http::CutPartial | Http::CutFull)
}

fn run_calls(
    what: &str,
    rt: &tokio::runtime::Runtime,
    rd: &dyn AsyncFileReader,
    data: &Bytes,
    calls: &[(bool, Vec<Range<u64>>)],
    base: u64,
    ru: Rules,
) -> R {
    let far = |r: &Range<u64>| r.start + base..r.end + base;
    let fars = |v: &[Range<u64>]| -> Vec<Range<u64>> { v.iter().map(far).collect() };
    for (together, v) in calls {
        if *together {
            let r = sut("get_byte_ranges", || rt.block_on(rd.get_byte_ranges(fars(v))))?;
            judge(what, data, v, r, ru)?;
        } else {
            for r in v {
                let got = sut("get_bytes", || rt.block_on(rd.get_bytes(far(r))))?;
                judge(what, data, std::slice::from_ref(r), got.map(|b| vec![b]), ru)?;
            }
        }
    }
    Ok(())
}
