#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("property-based round trip through an own TIFF writer", "exploration", "Generated directories (all 16 field types, counts 0..6000, every placement incl. > 4 GiB in sparse BigTIFF files) are written by an independent writer and must read back identically, directly, through the cache and one entry at a time."),
 "C02": ("model-based property testing of the directory accessors", "exploration", "Every accessor is compared with an independent table of tag -> type -> conversion over generated tag sets, widths, range limits, omissions and bad values."),
 "C03": ("stateful model-based property testing with injected failures", "exploration", "Histories of stepwise / read-all calls over generated chains (any physical order, loops, faults) are compared with the list of directories written; loops are bounded by a read budget."),
 "C04": ("metamorphic property testing over representations", "exploration", "The same generated image is written in all four container flavours and several layouts; metadata and decoded pixels must agree with each other and with the source pixels."),
 "C05": ("property-based testing against an exact integer model", "exploration", "Tile counts and byte ranges are compared with integer arithmetic over the full 32-bit size range and indexes up to usize::MAX."),
 "C06": ("differential property testing (batch vs single)", "exploration", "Generated index lists incl. repeats, invalid indexes and failing reads; batch result must equal the single results."),
 "C07": ("round-trip property testing against independent encoders", "exploration", "Tiles encoded with the encoder side of each codec library must decode bit-exactly; each encoder's own output is validated before use."),
 "C08": ("round-trip property testing against own forward predictors", "exploration", "Own forward predictors written from the TIFF text; decode must invert them exactly."),
 "C09": ("property-based testing against a shape/type model", "exploration", "Consistent and inconsistent payload sizes, types and layouts; Ok must match the model, disagreement must be Err."),
 "C10": ("property-based testing against a bit-level model", "exploration", "Own bit unpacking as oracle."),
 "C11": ("property-based testing against element-wise reinterpretation", "exploration", "Every element compared bit for bit, incl. misaligned-looking lengths and ndarray conversion."),
 "C12": ("stateful property testing with owned schedules and injected faults", "exploration", "Request histories, sequential and concurrent with cancellation and faults, compared with the plain bytes; opening through the cache compared with opening directly."),
 "C13": ("trace-invariant property testing over request histories", "exploration", "The request log of the source is judged step by step against the read-once / sequential / growth rules."),
 "C14": ("property-based testing of every reader against the plain bytes, with fragmentation and faults", "exploration", "Fragmenting/pausing/failing streams, real files, in-memory and local object stores, an HTTP server on loopback with several misbehaviours."),
 "C15": ("exhaustive fault enumeration over generated files", "fault_enumeration", "For each generated file every read is failed, truncated (three ways) or emptied in turn; error or the fault-free result, and the retry must equal it."),
 "C16": ("structure-aware mutation fuzzing with panic, read-budget and allocation oracles", "exploration", "Debug build with overflow checks; panics, more reads than the file could justify and oversized allocations are violations."),
 "C17": ("structure-aware mutation fuzzing of tiles with panic and consistency oracles", "exploration", "Debug build with overflow checks; panics and aborts are violations, and every accepted array is checked against the tags."),
 "C18": ("model-based property testing of the GeoKey directory", "exploration", "Generated key directories with shuffled parameter placement compared field by field with the model; malformed ones must be errors."),
 "C19": ("property-based testing against mathematical values", "exploration", "Every conversion of generated values compared with exact 128-bit integers / floats / text."),
 "C20": ("property-based testing with recording decoders", "exploration", "User decoders record every call; calls and results compared with the directory generated."),
 "C21": ("exhaustive enumeration against the specification tables", "exploration", "All 65536 codes of all nine code spaces against independently transcribed tables."),
 "C22": ("trace-invariant property testing over request logs", "exploration", "The exact ranges requested while opening / fetching are compared with what was written where."),
 "C23": ("property-based testing against an own JPEG encoder and float model; metamorphic over table placement", "exploration", "Within 5 levels of the model, bit-exact between placements."),
 "C24": ("stateful property testing under generated schedules (deterministic executor)", "exploration", "The harness owns polls, I/O completion order, wake-ups and cancellation; every completed operation is compared with the sequential result; a stuck schedule is a violation."),
 "C25": ("differential property testing of the Python bindings against the Rust library, in a real interpreter", "exploration", "python/src is compiled unmodified against stand-ins for PyO3 and its companions over the installed CPython 3.12; generated files, stores, faults and decoders are driven through the Python API and every value, buffer, request and error is compared with what the Rust API gives for the same input."),
}
m = {
 "version": 1,
 "setup_cmd": "bash run.sh --build",
 "checks": [
  {"property": k, "quick_cmd": f"bash run.sh {k}", "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {k}",
   "evidence_file": f"evidence/{k}.json", "technique": t, "level": l,
   "level_note": n + (" Exhaustive over the finite space." if k == "C21" else " Search over generated cases: it can show a violation, never its absence." if k == "C25" else " Search over generated cases: it can show a violation, never its absence. The thorough run adds coverage-guided search (libFuzzer) over the same generators and oracle.")}
  for k, (t, l, n) in T.items()],
 "not_applicable": [],
 "notes": "No hooks: the harness in /verif/harness uses only async-tiff's public API (all features). Replay a failure with harness/target/debug/vh replay <file> (C25: vhpy).",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
