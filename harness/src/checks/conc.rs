//! Shared use by concurrent tasks: C24.
use std::ops::Range;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::reader::{AsyncFileReader, TokioReader};

use super::sources::Frag;
use super::*;
use crate::io::*;
use crate::sched::*;

pub const C24: Check = Check {
    id: "C24",
    f: c24,
    quick: 240_000,
    thorough: 4_800_000,
    level: "exploration",
    rule: "two to six tasks over one reader, one cache and one set of directories, under a generated schedule of polls, I/O completions (in any order), spurious wake-ups and cancellations; non-trivial if the schedule switches tasks at least four times and at least two operations complete",
    assumptions: &[
        "interleavings at await points on one thread; one case in sixty on real threads, whose schedule is the machine's",
        "a task waits forever if no task is runnable and no I/O is outstanding",
    ],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

#[derive(Clone, Debug)]
enum Op {
    OpenCached,
    OpenDirect,
    /// directories one by one, through the cache
    StepCached,
    Tile(usize, (usize, usize)),
    Tiles(usize, Vec<(usize, usize)>),
    Ranges(Vec<Range<u64>>),
    CacheRange(Range<u64>),
}

type Dumps = Vec<Vec<(&'static str, String)>>;

struct World<'a> {
    cache: &'a ReadaheadMetadataCache<MemMeta>,
    reader: Arc<dyn AsyncFileReader>,
    ifds: &'a [ImageFileDirectory],
    imgs: &'a [Img],
    dumps: &'a Dumps,
    file: &'a SparseFile,
    registry: &'a DecoderRegistry,
    may_fail: bool,
}

fn same_open(what: &str, got: &[ImageFileDirectory], want: &Dumps) -> R {
    ensure(got.len() == want.len(), || format!("{what}: {} directories instead of {}", got.len(), want.len()))?;
    for (g, w) in got.iter().zip(want) {
        if let Some(d) = diff_dumps(&dump_full(g), w) {
            return Err(format!("{what}: {d}"));
        }
    }
    Ok(())
}

impl World<'_> {
    async fn tile(&self, t: Tile, k: usize, xy: (usize, usize)) -> R {
        let img = &self.imgs[k];
        ensure((t.x(), t.y()) == xy, || format!("asked for tile {xy:?}, got {:?}", (t.x(), t.y())))?;
        let i = xy.1 * img.nx + xy.0;
        ensure(parts_of(t.compressed_bytes()) == img.parts[i], || format!("tile {xy:?} of image {k}: not its bytes"))?;
        let a = t.decode(self.registry).map_err(|e| format!("decoding tile {xy:?} of image {k} failed: {e}"))?;
        check_array(&a, &img.spec, &img.px[i]).map_err(|m| format!("tile {xy:?} of image {k}: {m}"))
    }
    /// Ok(true) if it completed with the right result, Ok(false) if it failed as it may.
    async fn run(&self, op: &Op) -> Result<bool, String> {
        macro_rules! get {
            ($e:expr) => {
                match $e {
                    Ok(v) => v,
                    Err(_) if self.may_fail => return Ok(false),
                    Err(e) => return Err(format!("{op:?} failed although no read did: {e}")),
                }
            };
        }
        match op {
            Op::OpenCached => {
                let o = get!(open_all(self.cache).await);
                same_open("opening through the cache", &o.ifds, self.dumps)?;
            }
            Op::OpenDirect => {
                let o = get!(open_all(&self.reader).await);
                same_open("opening directly", &o.ifds, self.dumps)?;
            }
            Op::StepCached => {
                let mut r = get!(TiffMetadataReader::try_open(self.cache).await);
                let mut v = vec![];
                while let Some(i) = get!(r.read_next_ifd(self.cache).await) {
                    v.push(i);
                }
                same_open("reading one by one", &v, self.dumps)?;
            }
            Op::Tile(k, xy) => {
                let t = get!(self.ifds[*k].fetch_tile(xy.0, xy.1, self.reader.as_ref()).await);
                self.tile(t, *k, *xy).await?;
            }
            Op::Tiles(k, list) => {
                let ts = get!(self.ifds[*k].fetch_tiles(list, self.reader.as_ref()).await);
                ensure(ts.len() == list.len(), || format!("{} tiles instead of {}", ts.len(), list.len()))?;
                for (t, xy) in ts.into_iter().zip(list) {
                    self.tile(t, *k, *xy).await?;
                }
            }
            Op::Ranges(rs) => {
                let bs = get!(self.reader.get_byte_ranges(rs.clone()).await);
                ensure(bs.len() == rs.len(), || "wrong number of answers".into())?;
                for (b, r) in bs.iter().zip(rs) {
                    let w = self.file.read(r.clone());
                    ensure(*b == w, || format!("range {r:?}: {}", first_diff(b, &w)))?;
                }
            }
            Op::CacheRange(r) => {
                let b = get!(self.cache.fetch(r.clone()).await);
                let w = self.file.read(r.clone());
                ensure(b == w, || format!("range {r:?} of the cache: {}", first_diff(&b, &w)))?;
            }
        }
        Ok(true)
    }
}

fn c24(s: &mut Src, cx: &mut Cx) -> R {
    let fl = Flavour::gen(s);
    let mut m = Model::default();
    let mut imgs = vec![];
    let mut large = false;
    for _ in 0..s.us(1, 3) {
        let mut spec = if s.chance(1, 40) {
            let w = s.us(60, 120);
            let h = s.us(60, 120);
            Spec { w, h, spp: 1, dt: Dt::U8, planar: false, codec: Codec::None, predictor: 1, big_endian: false, cfg: 0 }
        } else {
            Spec::gen(s, &SpecOpts { max_side: 8, max_spp: 3, byte_only: true, max_bytes: 200 })
        };
        large |= spec.w * spec.h > 3000;
        spec.big_endian = fl.big_endian;
        if spec.codec == Codec::Lzma {
            spec.codec = Codec::Zstd;
        }
        let (nx, ny) = (s.us(1, 3), s.us(1, 3));
        let Some(img) = Img::with_spec(s, spec, nx, ny) else { return Ok(()) };
        m.ifds.push(img.ifd(&mut m.blobs, fl.bigtiff));
        imgs.push(img);
    }
    let lay = Layout::gen(s, &m, fl, false);
    let w = write(&m, fl, &lay);
    let gate = Gate::default();
    // real threads instead of generated schedules
    let threads = s.chance(1, 60);
    // faults: an error now and then on the shared source
    let rate = if s.chance(1, 4) { s.int(3, 30) } else { 0 };
    let mut frng = s.seed();
    let sh = Shared::new(w.file.clone());
    let sh = if threads { sh.jitter() } else { sh.gate(gate.clone()) }.arc();
    let injected = Arc::new(std::sync::atomic::AtomicU64::new(0));
    if rate > 0 {
        let injected = injected.clone();
        sh.set_faults(move |_| {
            if splitmix(&mut frng) % rate == 0 {
                injected.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                Fault::Error
            } else {
                Fault::None
            }
        });
    }
    let kind = s.upto(2);
    let reader: Arc<dyn AsyncFileReader> = match kind {
        0 => Arc::new(Mem(sh.clone())),
        1 => Arc::new(MemBatch(sh.clone())),
        _ => {
            let (sd, piece, pause) = (s.seed(), if large { s.int(500, 5000) } else { s.int(1, 40) }, s.int(1, 4) + 1);
            Arc::new(TokioReader::new(Frag::new(w.file.to_dense(), sd, piece, pause, vec![])))
        }
    };
    let initial = *s.pick(&[1u64, 8, 32, 200, 32 * 1024]);
    let cache = ReadaheadMetadataCache::new(MemMeta(sh.clone()))
        .with_initial_size(initial)
        .with_multiplier(*s.pick(&[2.0, 1.0, 1.5]));
    let o = ok("opening alone", open_sync(&Mem(Shared::new(w.file.clone()).arc()))?)?;
    let dumps: Dumps = o.ifds.iter().map(dump_full).collect();
    let registry = DecoderRegistry::default();
    let world = World {
        cache: &cache,
        reader,
        ifds: &o.ifds,
        imgs: &imgs,
        dumps: &dumps,
        file: &w.file,
        registry: &registry,
        may_fail: rate > 0,
    };
    cx.label(["shared in-memory reader", "shared batching reader", "shared stream"][kind as usize]);
    cx.note(|| format!("{} file of {} bytes, {} images, reader kind {kind}, cache {initial}, fault rate {rate}", fl.name(), w.file.len, imgs.len()));
    let len = w.file.len;
    let problems: Mutex<Vec<String>> = Mutex::new(vec![]);
    let completed = AtomicU64::new(0);
    let failed = AtomicU64::new(0);
    let nt = s.us(2, 6);
    let mut tasks = vec![];
    let mut jobs: Vec<Box<dyn FnOnce() -> R + Send>> = vec![];
    for i in 0..nt {
        let mut ops = vec![];
        for _ in 0..s.us(1, 3) {
            let k = s.us(0, imgs.len() - 1);
            let any = |s: &mut Src| (s.us(0, imgs[k].nx - 1), s.us(0, imgs[k].ny - 1));
            let range = |s: &mut Src| {
                let a = s.upto(len - 1);
                a..(a + if large { s.upto(9000) } else { s.upto(40) }).min(len)
            };
            ops.push(match s.weighted(&[2, 1, 1, 4, 3, 2, 3]) {
                0 => Op::OpenCached,
                1 => Op::OpenDirect,
                2 => Op::StepCached,
                3 => Op::Tile(k, any(s)),
                4 => {
                    let n = s.us(1, 4);
                    Op::Tiles(k, (0..n).map(|_| any(s)).collect())
                }
                5 => {
                    let n = s.us(1, 3);
                    Op::Ranges((0..n).map(|_| range(s)).collect())
                }
                _ => Op::CacheRange(range(s)),
            });
        }
        let cancellable = s.chance(1, 3);
        cx.note(|| format!("task {i}{}: {ops:?}", if cancellable { " (may be cancelled)" } else { "" }));
        let (world, problems, completed, failed) = (&world, &problems, &completed, &failed);
        let fut = async move {
            for op in ops {
                match world.run(&op).await {
                    Ok(true) => completed.fetch_add(1, SeqCst),
                    Ok(false) => failed.fetch_add(1, SeqCst),
                    Err(m) => {
                        problems.lock().unwrap().push(format!("task {i}: {m}"));
                        0
                    }
                };
            }
        };
        if threads {
            jobs.push(Box::new(move || block_on_parked("a task on a thread of its own", fut)));
        } else {
            tasks.push(Task { cancellable, fut: Box::pin(fut) });
        }
    }
    let st = if threads {
        cx.label("on threads");
        on_threads(jobs)?;
        if completed.load(SeqCst) >= 2 {
            cx.nontrivial();
        }
        None
    } else {
        Some(run_tasks(s, &gate, tasks)?)
    };
    if let Some(p) = problems.lock().unwrap().first() {
        return Err(p.clone());
    }
    // a failed read belongs to one operation and may not spill over to another
    let (inj, bad) = (injected.load(SeqCst), failed.load(SeqCst));
    ensure(bad <= inj, || format!("{bad} operations failed, only {inj} reads did"))?;
    if let Some(st) = st {
        if st.switches >= 4 && completed.load(SeqCst) >= 2 {
            cx.nontrivial();
        }
        if st.cancelled > 0 {
            cx.label("with cancellation");
        }
    }
    if rate > 0 {
        cx.label("with faults");
    }
    // afterwards everything is as if nothing had happened
    sh.clear_faults();
    let world = World { may_fail: false, reader: world.reader.clone(), ..world };
    let (wr, pr) = (&world, &problems);
    let last = Op::Tile(0, (0, 0));
    let task = Task {
        cancellable: false,
        fut: Box::pin(async move {
            for op in [Op::OpenCached, Op::OpenDirect, last] {
                if let Err(m) = wr.run(&op).await {
                    pr.lock().unwrap().push(format!("afterwards: {m}"));
                }
            }
        }),
    };
    run_tasks(s, &gate, vec![task])?;
    if let Some(p) = problems.lock().unwrap().first() {
        return Err(p.clone());
    }
    Ok(())
}
