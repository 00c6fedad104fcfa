mod checks;
mod codec;
mod engine;
mod io;
mod jpegenc;
mod sched;
mod tiffw;

use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use engine::*;
use serde_json::{json, Value};

#[global_allocator]
static A: Alloc = Alloc;

const SLOTS: usize = 64;

fn map_slots(path: &Path) -> &'static [AtomicU64] {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(false)
        .open(path)
        .expect("slot file");
    f.set_len((SLOTS * 8) as u64).unwrap();
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            SLOTS * 8,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        assert!(p != libc::MAP_FAILED);
        std::slice::from_raw_parts(p as *const AtomicU64, SLOTS)
    }
}

fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn find(id: &str) -> &'static Check {
    checks::ALL
        .iter()
        .find(|c| c.id == id)
        .unwrap_or_else(|| die(&format!("unknown property {id}")))
}

fn die(m: &str) -> ! {
    eprintln!("error: {m}");
    std::process::exit(2)
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn tier() -> String {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}

fn ncases(c: &Check) -> u64 {
    let n = if tier() == "thorough" { c.thorough } else { c.quick };
    env_u64("VH_CASES", n)
}

fn limit_memory() {
    let lim = libc::rlimit { rlim_cur: 26 << 30, rlim_max: 26 << 30 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}

fn in_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(32 << 20)
            .spawn_scoped(s, f)
            .unwrap()
            .join()
            .unwrap()
    })
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in checks::ALL {
                println!("{} {} {}", c.id, c.quick, c.thorough);
            }
        }
        Some("run") => std::process::exit(parent(find(&args[2]))),
        Some("worker") => {
            limit_memory();
            let c = find(&args[2]);
            let out = PathBuf::from(&args[3]);
            let slots = map_slots(Path::new(&args[4]));
            let write = |v: &Value| {
                let tmp = out.with_extension("tmp");
                std::fs::write(&tmp, serde_json::to_vec(v).unwrap()).unwrap();
                std::fs::rename(&tmp, &out).unwrap();
            };
            let r = run(c, env_u64("VERIF_SEED", 1), ncases(c), slots, &write);
            let mut js = r.json;
            if let Some(m) = &r.harness_error {
                js["harness_error"] = json!(m);
            }
            write(&js);
            let _ = r.failed;
        }
        // one case by index, recording its choices as they are drawn
        Some("case") => {
            limit_memory();
            let c = find(&args[2]);
            let idx: u64 = args[3].parse().unwrap();
            let mut src = Src::random(case_seed(env_u64("VERIF_SEED", 1), c.id, idx)).with_case(idx);
            if let Some(p) = args.get(4) {
                src = src.with_rec_file(std::fs::File::create(p).unwrap());
            }
            let code = in_big_stack(move || {
                let mut cx = Cx { verbose: true, ..Default::default() };
                let out = run_case(c, &mut src, &mut cx);
                for n in &cx.notes {
                    println!("  {n}");
                }
                println!("labels {:?} choices {} nontrivial {}", cx.labels, src.rec.len(), cx.nontrivial);
                match out {
                    Outcome::Ok => 0,
                    Outcome::Fail(m) => {
                        println!("FAIL {m}");
                        1
                    }
                    Outcome::HarnessError(m) => {
                        println!("HARNESS {m}");
                        2
                    }
                }
            });
            std::process::exit(code);
        }
        Some("replay") => {
            limit_memory();
            unsafe { libc::alarm(300) };
            let v: Value = serde_json::from_slice(&std::fs::read(&args[2]).unwrap()).unwrap();
            let c = find(v["property"].as_str().unwrap());
            let choices: Vec<u64> =
                v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let (notes, msg) = in_big_stack(move || describe(c, &choices));
            for n in notes {
                println!("  {n}");
            }
            println!("{msg}");
            std::process::exit(if msg == "ok" { 0 } else { 1 });
        }
        // a case found by coverage-guided search: confirm, shrink, report
        Some("judge") => std::process::exit(judge(find(&args[2]), Path::new(&args[3]))),
        _ => die("usage: vh list | run ID | replay FILE | case ID IDX"),
    }
}

fn spawn_case(c: &Check, idx: u64, rec: &Path) -> std::process::ExitStatus {
    Command::new(std::env::current_exe().unwrap())
        .args(["case", c.id, &idx.to_string()])
        .arg(rec)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .unwrap()
}

fn spawn_replay(file: &Path) -> std::process::ExitStatus {
    Command::new(std::env::current_exe().unwrap())
        .arg("replay")
        .arg(file)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .unwrap()
}

/// Whether a command is still running after `secs` (it is then killed).
fn hangs(mut cmd: Command, secs: u64) -> bool {
    let mut ch = cmd.stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let t = Instant::now();
    loop {
        if ch.try_wait().unwrap().is_some() {
            return false;
        }
        if t.elapsed() > Duration::from_secs(secs) {
            let _ = ch.kill();
            let _ = ch.wait();
            return true;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn read_rec(rec: &Path) -> Vec<u64> {
    let bytes = std::fs::read(rec).unwrap_or_default();
    bytes.chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).collect()
}

/// A case (normally milliseconds) that did not return for a minute beside others: does it return
/// alone? If not, the shortest choices found that still hang.
fn hung_case(c: &Check, idx: u64, work: &Path) -> Option<Vec<u64>> {
    let rec = work.join("rec");
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.args(["case", c.id, &idx.to_string()]).arg(&rec);
    if !hangs(cmd, env_u64("VH_HANG_S", 120)) {
        return None;
    }
    let tmp = work.join("cand.json");
    Some(shrink(
        read_rec(&rec),
        |cand| {
            std::fs::write(&tmp, serde_json::to_vec(&json!({"property": c.id, "choices": cand})).unwrap()).unwrap();
            let mut cmd = Command::new(std::env::current_exe().unwrap());
            cmd.arg("replay").arg(&tmp);
            hangs(cmd, 10).then(|| cand.to_vec())
        },
        400,
        90,
    ))
}

fn judge(c: &'static Check, file: &Path) -> i32 {
    let choices = read_rec(file);
    let work = std::env::temp_dir().join(format!("vh-judge-{}-{}", c.id, std::process::id()));
    std::fs::create_dir_all(&work).unwrap();
    let tmp = work.join("cand.json");
    let put = |cand: &[u64]| {
        std::fs::write(&tmp, serde_json::to_vec(&json!({"property": c.id, "choices": cand})).unwrap()).unwrap()
    };
    let replay = || {
        let mut cmd = Command::new(std::env::current_exe().unwrap());
        cmd.arg("replay").arg(&tmp);
        cmd
    };
    put(&choices);
    let (best, message) = if hangs(replay(), env_u64("VH_HANG_S", 120)) {
        let best = shrink(choices, |cand| { put(cand); hangs(replay(), 10).then(|| cand.to_vec()) }, 400, 90);
        (best, "the code under test did not return: this case runs forever".to_string())
    } else {
        let st = spawn_replay(&tmp);
        if let Some(sig) = st.signal() {
            let best = shrink(
                choices,
                |cand| { put(cand); spawn_replay(&tmp).signal().map(|_| cand.to_vec()) },
                400,
                60,
            );
            (best, format!("the process was killed by signal {sig} while running this case"))
        } else if st.success() {
            println!("{}: not reproduced", c.id);
            let _ = std::fs::remove_dir_all(&work);
            return 0;
        } else {
            in_big_stack(move || {
                let fails = |cand: &[u64]| {
                    let mut src = Src::replay(cand.to_vec());
                    match run_case(c, &mut src, &mut Cx::default()) {
                        Outcome::Fail(_) => Some(src.rec),
                        _ => None,
                    }
                };
                let best = shrink(choices, fails, 20_000, 60);
                let msg = describe(c, &best).1;
                (best, msg)
            })
        }
    };
    let _ = std::fs::remove_dir_all(&work);
    if let Some(m) = message.strip_prefix("HARNESS:") {
        eprintln!("error: {}: {m}", c.id);
        return 2;
    }
    let dir = root().join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join(format!("{}.json", c.id));
    let f = json!({"property": c.id, "choices": best, "shrunk": true, "message": message, "found_by": "coverage-guided search"});
    std::fs::write(&path, serde_json::to_vec_pretty(&f).unwrap()).unwrap();
    println!("failure: {message}");
    println!("VIOLATION property={} replay={}", c.id, path.display());
    1
}

fn parent(c: &Check) -> i32 {
    let start = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let work = std::env::temp_dir().join(format!("vh-{}-{}", c.id, std::process::id()));
    std::fs::create_dir_all(&work).unwrap();
    let out = work.join("result.json");
    let slots_path = work.join("slots");
    let slots = map_slots(&slots_path);
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(["worker", c.id])
        .arg(&out)
        .arg(&slots_path)
        .spawn()
        .unwrap();
    // Watchdog: a case that makes no progress for this long is run again on its own.
    let stall_limit = Duration::from_secs(env_u64("VH_STALL_S", 60));
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); SLOTS];
    let mut slow = std::collections::HashSet::new();
    let mut hung = None;
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        let mut suspect = None;
        for (i, s) in slots.iter().enumerate() {
            let v = s.load(Ordering::SeqCst);
            if v != last[i].0 {
                last[i] = (v, Instant::now());
            } else if v != 0 && last[i].1.elapsed() > stall_limit && !slow.contains(&(v - 1)) {
                suspect = Some((i, v - 1));
            }
        }
        if let Some((i, idx)) = suspect {
            // (a worker that is shrinking a failure has written it already)
            let failed = std::fs::read(&out)
                .ok()
                .and_then(|b| serde_json::from_slice::<Value>(&b).ok())
                .is_some_and(|j| !j["failure"].is_null());
            let choices = if failed { None } else { hung_case(c, idx, &work) };
            if failed || (choices.is_some() && slots[i].load(Ordering::SeqCst) == idx + 1) {
                hung = choices.map(|v| (idx, v));
                let _ = child.kill();
                break child.wait().unwrap();
            }
            slow.insert(idx);
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let mut js: Option<Value> =
        std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok());
    let mut herr: Option<String> = None;
    if let Some((idx, choices)) = hung {
        let mut j = js.take().unwrap_or_else(|| {
            json!({"evaluations": idx + 1, "distinct_nontrivial": 0, "samples": [], "classes": {}})
        });
        j["failure"] = json!({"case": idx, "choices": choices, "shrunk": true,
            "message": "the code under test did not return: this case runs forever (two minutes alone; cases take milliseconds)"});
        js = Some(j);
    } else if !status.success() && js.as_ref().map(|j| j["failure"].is_null()).unwrap_or(true) {
        // the worker died: re-run what was in flight, one case per process
        let mut inflight: Vec<u64> =
            slots.iter().map(|s| s.load(Ordering::SeqCst)).filter(|v| *v > 0).map(|v| v - 1).collect();
        inflight.sort();
        let mut found = None;
        for idx in &inflight {
            let rec = work.join("rec");
            let st = spawn_case(c, *idx, &rec);
            if st.signal().is_some() {
                found = Some((*idx, read_rec(&rec), st.signal().unwrap()));
                break;
            }
        }
        match found {
            Some((idx, choices, sig)) => {
                let tmp = work.join("cand.json");
                let best = shrink(
                    choices,
                    |cand| {
                        std::fs::write(
                            &tmp,
                            serde_json::to_vec(&json!({"property": c.id, "choices": cand})).unwrap(),
                        )
                        .unwrap();
                        if spawn_replay(&tmp).signal().is_some() {
                            Some(cand.to_vec())
                        } else {
                            None
                        }
                    },
                    400,
                    60,
                );
                let mut j = js.take().unwrap_or_else(|| {
                    json!({"evaluations": idx + 1, "distinct_nontrivial": 0, "samples": [], "classes": {}})
                });
                j["failure"] = json!({"case": idx, "choices": best, "shrunk": true,
                    "message": format!("the process was killed by signal {sig} while running this case")});
                js = Some(j);
            }
            None => herr = Some(format!("worker ended with {status:?}, not reproduced by {inflight:?}")),
        }
    }
    let js = js.unwrap_or_else(|| json!({"evaluations": 0, "distinct_nontrivial": 0, "samples": []}));
    if herr.is_none() {
        herr = js["harness_error"].as_str().map(|s| s.to_string());
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some(m) = &herr {
        eprintln!("error: {}: {m}", c.id);
        code = 2;
    } else if !js["failure"].is_null() {
        violations = 1;
        code = 1;
        let dir = root().join("replays");
        std::fs::create_dir_all(&dir).unwrap();
        let path = dir.join(format!("{}.json", c.id));
        let mut f = js["failure"].clone();
        f["property"] = json!(c.id);
        f["seed"] = json!(seed);
        std::fs::write(&path, serde_json::to_vec_pretty(&f).unwrap()).unwrap();
        println!("failure: {}", f["message"].as_str().unwrap_or(""));
        if let Some(n) = f["notes"].as_array() {
            for n in n {
                println!("  {}", n.as_str().unwrap_or(""));
            }
        }
        println!("VIOLATION property={} replay={}", c.id, path.display());
    }
    let mut cov = js.clone();
    if let Some(o) = cov.as_object_mut() {
        o.remove("failure");
        o.remove("harness_error");
        if o.get("inner_evaluations").and_then(|v| v.as_u64()) == Some(0) {
            o.remove("inner_evaluations");
        }
    }
    cov["rule"] = json!(c.rule);
    if c.exhaustive {
        cov["exhaustive"] = json!(true);
    }
    let ev = json!({
        "property": c.id,
        "tier": tier(),
        "seed": seed,
        "level": c.level,
        "coverage": cov,
        "assumptions": c.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let evdir = root().join("evidence");
    std::fs::create_dir_all(&evdir).unwrap();
    std::fs::write(evdir.join(format!("{}.json", c.id)), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    if code == 0 {
        println!(
            "{}: held on {} cases ({} distinct non-trivial) in {:.1}s",
            c.id,
            js["evaluations"],
            js["distinct_nontrivial"],
            start.elapsed().as_secs_f64()
        );
    }
    let _ = std::fs::remove_dir_all(&work);
    code
}
