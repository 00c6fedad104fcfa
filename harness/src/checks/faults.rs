//! Every fault position: C15.
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::reader::AsyncFileReader;
use async_tiff::Array;

use super::*;
use crate::io::*;

pub const C15: Check = Check {
    id: "C15",
    f: c15,
    quick: 10_000,
    thorough: 200_000,
    level: "fault_enumeration",
    rule: "per generated file every read is failed, cut short (three ways) and emptied in turn; non-trivial if the fault-free run makes at least four reads",
    assumptions: &[
        "tiles use lossless byte codecs (what a truncated lossy image decodes to is the codec's business)",
        "a short answer is one that holds a prefix of the bytes asked for",
    ],
    exhaustive: false,
    alloc_limit: NO_LIMIT,
};

type Dumps = Vec<Vec<(&'static str, String)>>;

/// What one operation returned, in comparable form.
#[derive(PartialEq, Debug)]
enum Out {
    Open(bool, String, Dumps),
    Tiles(Vec<([usize; 3], String, Vec<u8>)>),
}

fn arr(a: &Array) -> ([usize; 3], String, Vec<u8>) {
    (a.shape(), format!("{:?}", a.data_type()), typed_bytes(a.data()))
}

fn do_open<F: MetadataFetch>(f: &F) -> Result<Option<Out>, String> {
    Ok(match open_sync(f)? {
        Ok(o) => Some(Out::Open(o.bigtiff, format!("{:?}", o.endianness), o.ifds.iter().map(dump_full).collect())),
        Err(_) => None,
    })
}

/// Reads all directories one at a time and repeats whatever fails, as long as the fault may last.
fn step_by_step<F: MetadataFetch>(f: &F, width: u64) -> Result<Option<(bool, String, Dumps)>, String> {
    let mut spare = width + 1;
    let mut r = loop {
        match block_on("try_open", TiffMetadataReader::try_open(f))? {
            Ok(r) => break r,
            Err(_) if spare > 0 => spare -= 1,
            Err(_) => return Ok(None),
        }
    };
    let mut all = vec![];
    loop {
        match block_on("read_next_ifd", r.read_next_ifd(f))? {
            Ok(Some(i)) => all.push(dump_full(&i)),
            Ok(None) => return Ok(Some((r.bigtiff(), format!("{:?}", r.endianness()), all))),
            Err(_) if spare > 0 => spare -= 1,
            Err(_) => return Ok(None),
        }
    }
}

fn do_tiles(ifd: &ImageFileDirectory, r: &dyn AsyncFileReader, list: &[(usize, usize)], single: bool) -> Result<Option<Out>, String> {
    let mut tiles = vec![];
    if single {
        for (x, y) in list {
            match block_on("fetch_tile", ifd.fetch_tile(*x, *y, r))? {
                Ok(t) => tiles.push(t),
                Err(_) => return Ok(None),
            }
        }
    } else {
        match block_on("fetch_tiles", ifd.fetch_tiles(list, r))? {
            Ok(t) => tiles = t,
            Err(_) => return Ok(None),
        }
    }
    let mut v = vec![];
    for t in tiles {
        match decode(t)? {
            Ok(a) => v.push(arr(&a)),
            Err(_) => return Ok(None),
        }
    }
    Ok(Some(Out::Tiles(v)))
}

fn c15(s: &mut Src, cx: &mut Cx) -> R {
    let fl = Flavour::gen(s);
    let mut m = Model::default();
    let mut imgs = vec![];
    for _ in 0..s.us(1, 2) {
        let mut spec = if s.chance(1, 30) {
            let (w, h, planar) = (s.us(60, 120), s.us(60, 120), s.bool());
            Spec { w, h, spp: 2, dt: Dt::U8, planar, codec: Codec::None, predictor: 1, big_endian: false, cfg: 0 }
        } else {
            Spec::gen(s, &SpecOpts { max_side: 8, max_spp: 3, byte_only: true, max_bytes: 300 })
        };
        spec.big_endian = fl.big_endian;
        if spec.codec == Codec::Lzma && s.chance(3, 4) {
            spec.codec = Codec::Lzw;
        }
        let (nx, ny) = (s.us(1, 3), s.us(1, 2));
        let Some(img) = Img::with_spec(s, spec, nx, ny) else { return Ok(()) };
        let mut d = img.ifd(&mut m.blobs, fl.bigtiff);
        for _ in 0..s.us(0, 3) {
            let n = s.us(1, 30);
            let ty = *s.pick(&[2u16, 3, 12]);
            let t = match ty {
                2 => *s.pick(&[269u16, 270, 305, 42112, 42113]),
                3 => 320,
                _ => 33922,
            };
            d.set(t, Val::gen(s, ty, n));
        }
        m.ifds.push(d);
        imgs.push(img);
    }
    let lay = Layout::gen(s, &m, fl, false);
    let w = write(&m, fl, &lay);
    let cached = s.bool();
    let initial = *s.pick(&[1u64, 4, 16, 64, 32 * 1024]);
    let mult = *s.pick(&[2.0, 1.0, 1.5, 0.5]);
    // how many bytes a short answer keeps
    let keep = s.upto(20);
    let chop = s.int(1, 6);
    let faults = [Fault::Error, Fault::Truncate(keep), Fault::Chop(1), Fault::Chop(chop), Fault::Empty];
    // a fault may also last for several reads
    let width = if s.chance(1, 4) { s.int(2, 50) } else { 1 };
    cx.note(|| {
        format!(
            "{} file of {} bytes, {} directories, {}, faults last {width} reads, truncation to {keep} / by {chop}",
            fl.name(), w.file.len, m.ifds.len(),
            if cached { format!("through a cache of {initial} x {mult}") } else { "direct".into() }
        )
    });
    for i in &imgs {
        cx.note(|| i.show());
    }
    cx.label(if cached { "open through the cache" } else { "open directly" });
    let mk = || Shared::new(w.file.clone()).arc();
    // opening and reading directories
    let sh0 = mk();
    let cache_of = |sh: &std::sync::Arc<Shared>| {
        ReadaheadMetadataCache::new(MemMeta(sh.clone())).with_initial_size(initial).with_multiplier(mult)
    };
    let want = if cached { do_open(&cache_of(&sh0))? } else { do_open(&Mem(sh0.clone()))? };
    let Some(want) = want else { return Err("opening without faults failed".into()) };
    let n = sh0.served();
    if n >= 4 {
        cx.nontrivial();
    }
    for k in 0..n {
        for f in faults {
            cx.extra += 1;
            let sh = mk();
            sh.set_faults(move |i| if i >= k && i < k + width { f } else { Fault::None });
            let what = || format!("opening with {f:?} at read {k} of {n}");
            let check = |got: Option<Out>, stage: &str| -> R {
                match got {
                    None if stage == "with the fault" => Ok(()),
                    None => Err(format!("{}: {stage}: still fails", what())),
                    Some(_) if f == Fault::Error && stage == "with the fault" => {
                        Err(format!("{}: succeeded although a read failed", what()))
                    }
                    Some(o) => ensure(o == want, || {
                        let d = match (&o, &want) {
                            (Out::Open(_, _, a), Out::Open(_, _, b)) if a.len() == b.len() => {
                                a.iter().zip(b).find_map(|(a, b)| diff_dumps(a, b)).unwrap_or_default()
                            }
                            _ => "header or number of directories".into(),
                        };
                        format!("{}: {stage}: result differs from the fault-free one: {d}", what())
                    }),
                }
            };
            if cached {
                let c = cache_of(&sh);
                check(do_open(&c).map_err(|e| format!("{}: {e}", what()))?, "with the fault")?;
                sh.clear_faults();
                check(do_open(&c)?, "retry after the fault")?;
            } else {
                let r = Mem(sh.clone());
                check(do_open(&r).map_err(|e| format!("{}: {e}", what()))?, "with the fault")?;
                sh.clear_faults();
                check(do_open(&r)?, "retry after the fault")?;
            }
        }
    }
    // directory by directory, each failed step taken again on the same metadata reader
    for _ in 0..3 {
        cx.extra += 1;
        let sh = mk();
        let cache = cache_of(&sh);
        let mem = Mem(sh.clone());
        let (k, f) = (s.upto(n - 1), *s.pick(&faults));
        sh.set_faults(move |i| if i >= k && i < k + width { f } else { Fault::None });
        let what = || format!("reading directory by directory with {f:?} at read {k}");
        let got = if cached { step_by_step(&cache, width)? } else { step_by_step(&mem, width)? };
        let Some(got) = got else { return Err(format!("{}: still fails after the fault", what())) };
        let Out::Open(b, e, all) = &want else { unreachable!() };
        ensure(&got.0 == b && &got.1 == e, || format!("{}: the header differs from the fault-free one", what()))?;
        ensure(&got.2 == all, || format!("{}: the directories differ from the fault-free ones", what()))?;
    }
    // several faults, each hitting the retry of the one before
    let mut spare = s.seed();
    for _ in 0..3 {
        cx.extra += 1;
        let rounds = s.int(2, 5);
        let sh = mk();
        let rate = s.int(2, n.max(2) * 2);
        let c = cache_of(&sh);
        for round in 0..=rounds {
            let hit = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
            if round == rounds {
                sh.clear_faults();
            } else {
                let (hit, mut rng) = (hit.clone(), splitmix(&mut spare));
                sh.set_faults(move |_| {
                    let v = splitmix(&mut rng);
                    if v % rate != 0 {
                        return Fault::None;
                    }
                    hit.store(true, std::sync::atomic::Ordering::SeqCst);
                    faults[(v >> 32) as usize % faults.len()]
                });
            }
            let got = if cached { do_open(&c)? } else { do_open(&Mem(sh.clone()))? };
            let hit = hit.load(std::sync::atomic::Ordering::SeqCst);
            match got {
                None => ensure(hit, || format!("opening for the {}th time, after faults: fails without a fault", round + 1))?,
                Some(o) => ensure(o == want, || {
                    format!("opening for the {}th time, after faults: the result differs from the fault-free one", round + 1)
                })?,
            }
        }
    }
    // tiles
    let o = ok("opening", open_sync(&Mem(mk()))?)?;
    for (ifd, img) in o.ifds.iter().zip(&imgs) {
        let list: Vec<(usize, usize)> =
            (0..s.us(1, 4)).map(|_| (s.us(0, img.nx - 1), s.us(0, img.ny - 1))).collect();
        let single = s.bool();
        let batch = s.bool();
        let go = |sh: &std::sync::Arc<Shared>| {
            if batch {
                do_tiles(ifd, &MemBatch(sh.clone()), &list, single)
            } else {
                do_tiles(ifd, &Mem(sh.clone()), &list, single)
            }
        };
        let sh0 = mk();
        let Some(want) = go(&sh0)? else { return Err("fetching without faults failed".into()) };
        let n = sh0.served();
        for k in 0..n {
            for f in faults {
                cx.extra += 1;
                let sh = mk();
                sh.set_faults(move |i| if i >= k && i < k + width { f } else { Fault::None });
                let what = || format!("fetching tiles {list:?} of {} with {f:?} at read {k} of {n}", img.show());
                match go(&sh).map_err(|e| format!("{}: {e}", what()))? {
                    None => {}
                    Some(_) if f == Fault::Error => return Err(format!("{}: succeeded although a read failed", what())),
                    Some(o) => ensure(o == want, || format!("{}: pixels differ from the fault-free ones", what()))?,
                }
                sh.clear_faults();
                let again = go(&sh)?;
                ensure(again.as_ref() == Some(&want), || format!("{}: retry after the fault: {}", what(), if again.is_none() { "still fails" } else { "pixels differ" }))?;
            }
        }
    }
    Ok(())
}
