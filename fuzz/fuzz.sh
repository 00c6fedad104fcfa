#!/bin/bash
# fuzz.sh ID SECONDS: coverage-guided search (libFuzzer) over the choices of check ID, from /repo's working tree.
# Exit 0 if nothing was found, 1 with a VIOLATION line otherwise. The harness must have been built (run.sh does).
set -u
id=$1; secs=$2
root=$(cd "$(dirname "$0")/.." && pwd)
vh=$root/harness/target/debug/vh
procs=${VH_FUZZ_PROCS:-8}
cd "$root/fuzz" || exit 2
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu LIBCLANG_PATH=/usr/lib/llvm-18/lib
cargo clean --offline -p async-tiff >/dev/null 2>&1
if ! RUSTC_WRAPPER=$root/fuzz/rustc-cov.sh cargo build --offline --locked >target.log 2>&1; then
  tail -20 target.log; exit 2
fi
rm -f "$root/fuzz/target.log"
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/corpus"
pids=()
for k in $(seq "$procs"); do
  ( cd "$work" && VERIF_ROOT=$root VH_FUZZ_ID=$id VH_FUZZ_OUT=$work/fail.$k exec "$root/fuzz/target/debug/vh-fuzz" corpus \
      -seed=$((${VERIF_SEED:-1} * 1000 + k)) -max_total_time="$secs" -max_len=4096 -timeout=120 -rss_limit_mb=3500 \
      -reload=1 -print_final_stats=1 -artifact_prefix="$work/art.$k." >"$work/log.$k" 2>&1 ) &
  pids+=($!)
done
for p in "${pids[@]}"; do wait "$p"; done
rc=0
for k in $(seq "$procs"); do
  if ls "$work"/art."$k".* >/dev/null 2>&1 && [ $rc = 0 ]; then
    if [ ! -e "$work/fail.$k" ]; then
      # it killed the process, or did not return: record its choices
      for a in "$work"/art."$k".*; do
        ( cd "$work" && VH_FUZZ_ID=$id VH_FUZZ_REC=1 VH_FUZZ_OUT=$work/fail.$k timeout 130 "$root/fuzz/target/debug/vh-fuzz" "$a" >/dev/null 2>&1 )
      done
    fi
    grep -h "FUZZ-" "$work/log.$k" | head -1
    VERIF_ROOT=$root "$vh" judge "$id" "$work/fail.$k"; r=$?
    [ $r -ne 0 ] && rc=$r
  fi
done
python3 - "$root" "$id" "$work" "$procs" "$secs" <<'P'
import sys, re, glob, json, os
root, id, work, procs, secs = sys.argv[1:6]
ex = ft = 0
for f in glob.glob(work + '/log.*'):
    t = open(f, errors='replace').read()
    m = re.findall(r'stat::number_of_executed_units:\s*(\d+)', t) or re.findall(r'^#(\d+)', t, re.M)[-1:]
    ex += int(m[-1]) if m else 0
    ft = max([ft] + [int(x) for x in re.findall(r'ft: (\d+)', t)])
n = len(os.listdir(work + '/corpus'))
print(f'{id}: coverage-guided: {ex} executions, {n} inputs kept, {ft} features, {procs} processes x {secs} s')
p = f'{root}/evidence/{id}.json'
if os.path.exists(p):
    e = json.load(open(p))
    e['coverage']['coverage_guided'] = {'engine': 'libFuzzer over the same choices', 'executions': ex, 'corpus': n, 'features': ft, 'processes': int(procs), 'seconds_each': int(secs)}
    json.dump(e, open(p, 'w'), indent=2)
P
exit $rc
