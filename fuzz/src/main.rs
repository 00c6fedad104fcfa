//! Coverage-guided search (libFuzzer) over the same cases as the harness: the input bytes are read as choices.
//! `VH_FUZZ_ID` names the check, `VH_FUZZ_OUT` the file that receives the choices of a failing case.
#![no_main]
#![allow(dead_code)]
#[path = "../../harness/src/checks/mod.rs"]
mod checks;
#[path = "../../harness/src/codec.rs"]
mod codec;
#[path = "../../harness/src/engine.rs"]
mod engine;
#[path = "../../harness/src/io.rs"]
mod io;
#[path = "../../harness/src/jpegenc.rs"]
mod jpegenc;
#[path = "../../harness/src/sched.rs"]
mod sched;
#[path = "../../harness/src/tiffw.rs"]
mod tiffw;

use std::sync::OnceLock;

use engine::*;

#[global_allocator]
static A: Alloc = Alloc;

fn check() -> &'static Check {
    static C: OnceLock<&'static Check> = OnceLock::new();
    C.get_or_init(|| {
        install_panic_hook();
        let id = std::env::var("VH_FUZZ_ID").expect("VH_FUZZ_ID");
        checks::ALL.iter().find(|c| c.id == id).expect("known check")
    })
}

fn choices_of(rec: &[u64]) -> Vec<u8> {
    rec.iter().flat_map(|v| v.to_le_bytes()).collect()
}

libfuzzer_sys::fuzz_target!(|data: &[u8]| {
    let c = check();
    let out = std::env::var("VH_FUZZ_OUT").unwrap_or_else(|_| "fail".into());
    let mut src = Src::bytes(data.to_vec());
    if std::env::var("VH_FUZZ_REC").is_ok() {
        // replaying an input that kills the process
        src = src.with_rec_file(std::fs::File::create(&out).unwrap());
    }
    let mut cx = Cx::default();
    match run_case(c, &mut src, &mut cx) {
        Outcome::Ok => {}
        Outcome::Fail(m) => {
            eprintln!("FUZZ-FAIL {m}");
            std::fs::write(&out, choices_of(&src.rec)).unwrap();
            std::process::abort();
        }
        Outcome::HarnessError(m) => {
            eprintln!("FUZZ-HARNESS {m}");
            std::process::abort();
        }
    }
});
