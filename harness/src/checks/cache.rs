//! The readahead cache: C12, C13.
use std::ops::Range;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::MetadataFetch;
use async_tiff::TIFF;
use bytes::Bytes;

use super::*;
use crate::io::*;
use crate::sched::*;

#[derive(Clone, Copy, Debug)]
struct Cfg {
    initial: Option<u64>,
    mult: Option<f64>,
}

impl Cfg {
    fn gen(s: &mut Src, len: u64) -> Cfg {
        let initial = match s.upto(9) {
            0 => None,
            1 => Some(0),
            2 => Some(s.ubits(64)),
            3 => Some(len + s.upto(2)),
            _ => Some(s.int(1, 60)),
        };
        let mult = match s.upto(9) {
            0 => None,
            1 => Some(0.0),
            2 => Some(*s.pick(&[0.1, 0.5, 1e-3, 1e20, 1e300])),
            3 => Some(1.0),
            4 => Some(s.int(1, 40) as f64 / 8.0),
            _ => Some(*s.pick(&[1.5, 2.0, 3.0, 1.1])),
        };
        Cfg { initial, mult }
    }
    fn build<F: MetadataFetch>(&self, f: F) -> ReadaheadMetadataCache<F> {
        let mut c = ReadaheadMetadataCache::new(f);
        // the order of configuration must not matter
        if let Some(m) = self.mult {
            c = c.with_multiplier(m);
        }
        if let Some(i) = self.initial {
            c = c.with_initial_size(i);
        }
        c
    }
}

fn gen_file(s: &mut Src) -> Bytes {
    let len = match s.upto(11) {
        0 => 0,
        1 => s.us(1, 3),
        2 => s.us(20_000, 100_000),
        3 if s.chance(1, 60) => {
            // megabytes, of a pattern that does not repeat
            static BIG: std::sync::LazyLock<Bytes> = std::sync::LazyLock::new(|| {
                let mut k = 1u64;
                Bytes::from((0..1 << 20).flat_map(|_| splitmix(&mut k).to_le_bytes()).collect::<Vec<u8>>())
            });
            let at = s.us(0, 1000);
            return BIG.slice(at..at + s.us(1 << 20, 8_000_000));
        }
        _ => s.us(1, 500),
    };
    // every byte tells its position
    let k = s.upto(250) as u8;
    Bytes::from((0..len).map(|i| (i as u8) ^ ((i >> 8) as u8).wrapping_mul(37) ^ k).collect::<Vec<u8>>())
}

fn gen_range(s: &mut Src, len: u64, last: Option<&Range<u64>>) -> Range<u64> {
    match s.upto(9) {
        0 => {
            let a = s.upto(len + 20);
            a..a + s.upto(40)
        }
        1 => {
            let a = s.upto(len);
            a..a
        }
        2 => s.upto(len)..len + s.upto(30),
        3 => 0..s.upto(len),
        4 if last.is_some() => last.unwrap().clone(),
        5 | 6 if last.is_some() => {
            let l = last.unwrap();
            l.end..l.end.saturating_add(s.upto(30))
        }
        7 if s.chance(1, 8) => {
            let b = s.ubits(64);
            s.upto(b)..b
        }
        _ => {
            let a = s.upto(len);
            a..(a + s.upto(25)).min(len).max(a)
        }
    }
}

fn want(data: &Bytes, r: &Range<u64>) -> Bytes {
    let l = data.len() as u64;
    let e = r.end.min(l);
    let b = r.start.min(e);
    data.slice(b as usize..e as usize)
}

fn judge(r: &Range<u64>, got: &Bytes, data: &Bytes) -> R {
    let w = want(data, r);
    ensure(got == &w, || {
        format!(
            "fetch({r:?}) of a {}-byte source answered {} bytes ({}), expected {}",
            data.len(),
            got.len(),
            first_diff(got, &w),
            w.len()
        )
    })
}

/// faults: k-th source request fails
fn gen_faults(s: &mut Src) -> Vec<bool> {
    if s.bool() {
        return vec![];
    }
    (0..s.us(1, 8)).map(|_| s.chance(1, 3)).collect()
}

struct Errs(Arc<AtomicU64>);

fn source(data: &Bytes, eof: Eof, faults: &[bool], gate: Option<Gate>) -> (Arc<Shared>, Errs) {
    let n = Arc::new(AtomicU64::new(0));
    let n2 = n.clone();
    let f = faults.to_vec();
    let mut sh = Shared::new(Arc::new(SparseFile::dense(data.clone()))).eof(eof).faults(move |k| {
        if f.get(k as usize).copied().unwrap_or(false) {
            n2.fetch_add(1, Ordering::SeqCst);
            Fault::Error
        } else {
            Fault::None
        }
    });
    if let Some(g) = gate {
        sh = sh.gate(g);
    }
    (sh.arc(), Errs(n))
}

// ---------------------------------------------------------------- C12

pub const C12: Check = Check {
    id: "C12",
    f: c12,
    quick: 3_000_000,
    thorough: 60_000_000,
    level: "model_based",
    rule: "non-trivial if the history has at least three requests and the source was asked at least twice",
    assumptions: &[
        "the source answers short only at the end of the file (short answers elsewhere are C15's faults)",
        "ranges are well-formed (start <= end)",
    ],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

fn c12(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(1, 300) {
        return c12_threads(s, cx);
    }
    match s.weighted(&[5, 4, 2]) {
        0 => c12_seq(s, cx),
        1 => c12_conc(s, cx),
        _ => c12_open(s, cx),
    }
}

fn c12_seq(s: &mut Src, cx: &mut Cx) -> R {
    let data = gen_file(s);
    let len = data.len() as u64;
    let cfg = Cfg::gen(s, len);
    let eof = *s.pick(&[Eof::Cut, Eof::ErrorAtStart]);
    let faults = gen_faults(s);
    let (sh, errs) = source(&data, eof, &faults, None);
    let cache = cfg.build(MemMeta(sh.clone()));
    cx.note(|| format!("sequential, {len} bytes, {cfg:?}, {eof:?}, faults {faults:?}"));
    cx.label("sequential");
    let mut last: Option<Range<u64>> = None;
    let n = s.us(1, 14);
    for _ in 0..n {
        let r = gen_range(s, len, last.as_ref());
        cx.note(|| format!("fetch {r:?}"));
        let before = errs.0.load(Ordering::SeqCst);
        let got = block_on("cache fetch", cache.fetch(r.clone()))?;
        let failed = errs.0.load(Ordering::SeqCst) > before;
        match got {
            Ok(b) => judge(&r, &b, &data)?,
            Err(e) => {
                // starting past the end may be an error of the source
                let past = eof == Eof::ErrorAtStart && r.end > len;
                ensure(failed || past, || format!("fetch({r:?}) failed without a fault of the source: {e}"))?;
            }
        }
        last = Some(r);
    }
    if n >= 3 && sh.served() >= 2 {
        cx.nontrivial();
    }
    Ok(())
}

fn c12_conc(s: &mut Src, cx: &mut Cx) -> R {
    let data = gen_file(s);
    let len = data.len() as u64;
    let cfg = Cfg::gen(s, len);
    let faults = gen_faults(s);
    let gate = Gate::default();
    let (sh, errs) = source(&data, Eof::Cut, &faults, Some(gate.clone()));
    let cache = cfg.build(MemMeta(sh.clone()));
    cx.note(|| format!("concurrent, {len} bytes, {cfg:?}, faults {faults:?}"));
    cx.label("concurrent");
    let problems: Mutex<Vec<String>> = Mutex::new(vec![]);
    let err_count = AtomicU64::new(0);
    let nt = s.us(2, 5);
    let mut tasks = vec![];
    let mut nreq = 0;
    for _ in 0..nt {
        let mut reqs: Vec<Range<u64>> = vec![];
        for _ in 0..s.us(1, 4) {
            reqs.push(gen_range(s, len, reqs.last()));
        }
        nreq += reqs.len();
        let cancellable = s.chance(1, 3);
        cx.note(|| format!("task {reqs:?} cancellable {cancellable}"));
        let (cache, data, problems, err_count) = (&cache, &data, &problems, &err_count);
        tasks.push(Task {
            cancellable,
            fut: Box::pin(async move {
                for r in reqs {
                    match cache.fetch(r.clone()).await {
                        Ok(b) => {
                            if let Err(m) = judge(&r, &b, data) {
                                problems.lock().unwrap().push(m);
                            }
                        }
                        Err(_) => {
                            err_count.fetch_add(1, Ordering::SeqCst);
                        }
                    }
                }
            }),
        });
    }
    let st = run_tasks(s, &gate, tasks)?;
    if let Some(p) = problems.lock().unwrap().first() {
        return Err(p.clone());
    }
    let (e, f) = (err_count.load(Ordering::SeqCst), errs.0.load(Ordering::SeqCst));
    ensure(e <= f, || format!("{e} requests failed, the source failed {f} times"))?;
    if nreq >= 3 && sh.served() >= 2 {
        cx.nontrivial();
    }
    if st.cancelled > 0 {
        cx.label("with cancellation");
    }
    // and it still works afterwards
    sh.clear_faults();
    let r = 0..len;
    let mut fut = Box::pin(cache.fetch(r.clone()));
    let out: Mutex<Option<async_tiff::error::AsyncTiffResult<Bytes>>> = Mutex::new(None);
    {
        let out = &out;
        run_tasks(s, &gate, vec![Task { cancellable: false, fut: Box::pin(async move {
            let v = fut.as_mut().await;
            *out.lock().unwrap() = Some(v);
        }) }])?;
    }
    let v = out.into_inner().unwrap().unwrap();
    judge(&r, &ok("fetching everything afterwards", v)?, &data)
}

/// The same on real threads.
fn c12_threads(s: &mut Src, cx: &mut Cx) -> R {
    let data = gen_file(s);
    let len = data.len() as u64;
    let cfg = Cfg::gen(s, len);
    let sh = Shared::new(Arc::new(SparseFile::dense(data.clone()))).jitter().arc();
    let cache = cfg.build(MemMeta(sh.clone()));
    cx.note(|| format!("threads, {len} bytes, {cfg:?}"));
    cx.label("on threads");
    let mut jobs: Vec<Box<dyn FnOnce() -> R + Send>> = vec![];
    for _ in 0..s.us(2, 4) {
        let mut reqs: Vec<Range<u64>> = vec![];
        for _ in 0..s.us(2, 12) {
            reqs.push(gen_range(s, len, reqs.last()));
        }
        cx.note(|| format!("thread {reqs:?}"));
        let (cache, data) = (&cache, &data);
        jobs.push(Box::new(move || {
            for r in reqs {
                let b = block_on_parked("cache fetch", cache.fetch(r.clone()))?;
                judge(&r, &ok("cache fetch", b)?, data)?;
            }
            Ok(())
        }));
    }
    on_threads(jobs)?;
    if sh.served() >= 2 {
        cx.nontrivial();
    }
    Ok(())
}

fn c12_open(s: &mut Src, cx: &mut Cx) -> R {
    let fl = Flavour::gen(s);
    let mut m = Model::default();
    for _ in 0..s.us(1, 3) {
        let mut d = minimal_ifd(s.ubits(16) as u32 + 1, s.ubits(16) as u32 + 1);
        for _ in 0..s.us(0, 5) {
            let n = s.us(1, 50);
            let ty = *s.pick(&[2u16, 3, 12]);
            let t = match ty {
                2 => *s.pick(&[269u16, 270, 305, 42112, 42113]),
                3 => 320,
                _ => 33922,
            };
            d.set(t, Val::gen(s, ty, n));
        }
        m.ifds.push(d);
    }
    let lay = Layout::gen(s, &m, fl, false);
    let w = write(&m, fl, &lay);
    let cfg = Cfg::gen(s, w.file.len);
    let eof = *s.pick(&[Eof::Cut, Eof::ErrorAtStart]);
    cx.note(|| format!("opening a {} file of {} bytes, {} directories, {cfg:?}", fl.name(), w.file.len, m.ifds.len()));
    cx.label("open");
    let direct = ok("opening directly", open_sync(&MemMeta(Shared::new(w.file.clone()).arc()))?)?;
    let sh = Shared::new(w.file.clone()).eof(eof).arc();
    let cache = cfg.build(MemMeta(sh.clone()));
    for round in 0..2 {
        let o = ok("opening through the cache", open_sync(&cache)?)?;
        ensure(o.bigtiff == direct.bigtiff && o.endianness == direct.endianness && o.ifds.len() == direct.ifds.len(), || {
            format!("round {round}: header or directory count differs through the cache")
        })?;
        for (a, b) in o.ifds.iter().zip(&direct.ifds) {
            if let Some(d) = diff_dumps(&dump_full(a), &dump_full(b)) {
                return Err(format!("round {round}: through the cache {d} directly"));
            }
        }
    }
    if sh.served() >= 2 {
        cx.nontrivial();
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

pub const C13: Check = Check {
    id: "C13",
    f: c13,
    quick: 8_000_000,
    thorough: 80_000_000,
    level: "model_based",
    rule: "non-trivial if the history has at least three requests and the source was asked at least twice, or a whole file was opened with the reported header size",
    assumptions: &["the source answers short only at the end of the file"],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

/// Is `r` the request the cache must make with `have` bytes, to answer up to `end`?
fn right_request(cfg: &Cfg, have: u64, end: u64, r: &Range<u64>) -> R {
    ensure(r.start == have, || format!("the source was asked for {r:?} with {have} bytes cached"))?;
    let needed = end - have.min(end);
    let exp = |size: u64| have.saturating_add(size.max(needed));
    let fine = if have == 0 {
        r.end == exp(cfg.initial.unwrap_or(32 * 1024))
    } else {
        let f = have as f64 * cfg.mult.unwrap_or(2.0);
        // any rounding to a whole number
        r.end == exp(f.floor() as u64) || r.end == exp(f.ceil() as u64)
    };
    ensure(fine, || {
        format!("the source was asked for {r:?} with {have} bytes cached, {needed} needed, {cfg:?}")
    })
}

fn c13(s: &mut Src, cx: &mut Cx) -> R {
    match s.weighted(&[5, 3, 2]) {
        0 => c13_seq(s, cx),
        1 => c13_conc(s, cx),
        _ => c13_open(s, cx),
    }
}

fn one(r: &Req) -> Range<u64> {
    match r {
        Req::One(r) => r.clone(),
        Req::Many(v) => v[0].clone(),
    }
}

fn c13_seq(s: &mut Src, cx: &mut Cx) -> R {
    let data = gen_file(s);
    let len = data.len() as u64;
    let cfg = Cfg::gen(s, len);
    let faults = gen_faults(s);
    let (sh, errs) = source(&data, Eof::Cut, &faults, None);
    let cache = cfg.build(MemMeta(sh.clone()));
    cx.note(|| format!("sequential, {len} bytes, {cfg:?}, faults {faults:?}"));
    cx.label("sequential");
    let mut have = 0u64;
    let mut last: Option<Range<u64>> = None;
    let n = s.us(1, 14);
    for _ in 0..n {
        let r = gen_range(s, len, last.as_ref());
        let before = errs.0.load(Ordering::SeqCst);
        let _ = block_on("cache fetch", cache.fetch(r.clone()))?;
        let failed = errs.0.load(Ordering::SeqCst) > before;
        let log = sh.take_log();
        cx.note(|| format!("fetch {r:?} with {have} cached: {log:?}, failed {failed}"));
        ensure(log.len() <= 1, || format!("fetch({r:?}) made {} requests: {log:?}", log.len()))?;
        if r.end <= have {
            ensure(log.is_empty(), || format!("fetch({r:?}) with {have} bytes cached requested {log:?}"))?;
        }
        if let Some(q) = log.first() {
            let q = one(q);
            right_request(&cfg, have, r.end, &q)?;
            if !failed {
                have += want(&data, &q).len() as u64;
            }
        } else {
            ensure(r.end <= have || r.is_empty(), || format!("fetch({r:?}) with {have} bytes cached made no request"))?;
        }
        last = Some(r);
    }
    if n >= 3 && sh.served() >= 2 {
        cx.nontrivial();
    }
    Ok(())
}

fn c13_conc(s: &mut Src, cx: &mut Cx) -> R {
    let data = gen_file(s);
    let len = data.len() as u64;
    let cfg = Cfg::gen(s, len);
    let gate = Gate::default();
    let (sh, _) = source(&data, Eof::Cut, &[], Some(gate.clone()));
    let cache = cfg.build(MemMeta(sh.clone()));
    cx.note(|| format!("concurrent, {len} bytes, {cfg:?}"));
    cx.label("concurrent");
    let mut tasks = vec![];
    let mut ends = vec![];
    let mut nreq = 0;
    for _ in 0..s.us(2, 5) {
        let mut reqs: Vec<Range<u64>> = vec![];
        for _ in 0..s.us(1, 4) {
            reqs.push(gen_range(s, len, reqs.last()));
        }
        nreq += reqs.len();
        ends.extend(reqs.iter().map(|r| r.end));
        cx.note(|| format!("task {reqs:?}"));
        let cache = &cache;
        tasks.push(Task {
            cancellable: false,
            fut: Box::pin(async move {
                for r in reqs {
                    let _ = cache.fetch(r).await;
                }
            }),
        });
    }
    let st = run_tasks(s, &gate, tasks)?;
    ensure(st.max_pending <= 1, || format!("{} requests to the source were in flight together", st.max_pending))?;
    let log = sh.take_log();
    cx.note(|| format!("requests {log:?}"));
    ensure(log.len() <= nreq, || format!("{} requests to the source for {nreq} fetches", log.len()))?;
    let mut have = 0;
    for q in &log {
        let q = one(q);
        // some waiting request must explain it
        let fine = ends.iter().any(|e| (*e > have || q.start >= len || have == 0) && right_request(&cfg, have, *e, &q).is_ok());
        ensure(fine, || format!("with {have} bytes cached the source was asked for {q:?} ({cfg:?}, requests end at {ends:?})"))?;
        have += want(&data, &q).len() as u64;
    }
    if nreq >= 3 && log.len() >= 2 {
        cx.nontrivial();
    }
    Ok(())
}

/// Prefetching the header size: one request reads all metadata.
fn c13_open(s: &mut Src, cx: &mut Cx) -> R {
    let fl = Flavour::gen(s);
    let mut m = Model::default();
    for _ in 0..s.us(1, 3) {
        let mut d = minimal_ifd(64, 64);
        d.set(tag::TILE_WIDTH, Val::Long(vec![16]));
        d.set(tag::TILE_LENGTH, Val::Long(vec![16]));
        let n = s.us(1, 30);
        let mut offs = vec![];
        for _ in 0..n {
            if s.chance(1, 8) && !(offs.is_empty()) {
                offs.push(None);
            } else {
                offs.push(Some(m.blobs.len()));
                let l = s.us(1, 9);
                m.blobs.push(Bytes::from(bulk(s.seed(), l)));
            }
        }
        let strips = s.chance(1, 4);
        let k = offs.len();
        let (to, tc) = if strips {
            (tag::STRIP_OFFSETS, tag::STRIP_BYTE_COUNTS)
        } else {
            (tag::TILE_OFFSETS, tag::TILE_BYTE_COUNTS)
        };
        d.set(to, Val::Offsets(if fl.bigtiff { 16 } else { 4 }, offs));
        d.set(tc, Val::Long(vec![9; k]));
        for _ in 0..s.us(0, 3) {
            let n = s.us(1, 50);
            d.set(*s.pick(&[269u16, 270, 305, 42112]), Val::gen(s, 2, n));
        }
        m.ifds.push(d);
    }
    let mut lay = Layout::sequential();
    // metadata in any order, then the data
    let nmeta = chunks(&m, fl).iter().filter(|c| !matches!(c.0, ChunkId::Blob(_))).count();
    let total = chunks(&m, fl).len();
    lay.order = s.perm(nmeta);
    let blobs: Vec<usize> = s.perm(total - nmeta).into_iter().map(|i| i + nmeta).collect();
    lay.order.extend(blobs);
    lay.gaps = (0..total).map(|_| if s.chance(1, 6) { s.upto(20) } else { 0 }).collect();
    let w = write(&m, fl, &lay);
    let direct = ok("opening", open_sync(&MemMeta(Shared::new(w.file.clone()).arc()))?)?;
    let size = TIFF::new(direct.ifds.clone(), direct.endianness);
    let size = sut("header_byte_size", || size.header_byte_size())?;
    let sh = Shared::new(w.file.clone()).arc();
    let cache = ReadaheadMetadataCache::new(MemMeta(sh.clone())).with_initial_size(size);
    let o = ok("opening through the cache", open_sync(&cache)?)?;
    ensure(o.ifds.len() == direct.ifds.len(), || "directories are missing".into())?;
    let log = sh.take_log();
    cx.note(|| format!("{} file of {} bytes, header size {size}, requests {log:?}", fl.name(), w.file.len));
    cx.label("prefetch of the header size");
    cx.nontrivial();
    ensure(log.len() == 1 && one(&log[0]) == (0..size), || {
        format!("with the reported header size {size} prefetched, the requests were {log:?}")
    })
}
