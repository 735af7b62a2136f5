#!/bin/bash
# dump.sh BACKEND OUT.json TARGETDIR: compile /repo (through the harness crate) with the MIR dumper
set -e
here=$(cd "$(dirname "$0")" && pwd)
be=$1; out=$2; tgt=$3
drv=$here/driver/target/release/mirdump
sysroot=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$sysroot/lib:$LD_LIBRARY_PATH
export RUSTC_WORKSPACE_WRAPPER=$drv
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=1 -Cdebug-assertions=on -Coverflow-checks=on -Awarnings"
export MIRDUMP_CRATE=vharness MIRDUMP_ROOT_CRATES=ed448_goldilocks MIRDUMP_OUT=$out
cd $here/harness
run() { cargo +nightly check --offline --quiet --features $be --target-dir $tgt 2>"$out.err"; }
# client functions of internal methods are left out should those methods have been renamed
for i in 1 2 3 4; do
  run && { rm -f "$out.err"; exit 0; }
  gone=$(python3 - "$out.err" <<'PY'
import re, sys
src = open('src/lib.rs').read().split('\n'); out = set()
for f, n in re.findall(r'--> (\S*src/lib\.rs):(\d+):', open(sys.argv[1]).read()):
    i = int(n) - 1
    if f != 'src/lib.rs' or i >= len(src): continue
    while i > 0 and not src[i].startswith('pub fn '): i -= 1
    if src[i - 1].startswith('#[cfg(not(vp_no_'): out.add(src[i - 1][10:-3])
print(' '.join(sorted(out)))
PY
)
  [ -z "$gone" ] && break
  for g in $gone; do RUSTFLAGS="$RUSTFLAGS --cfg $g"; done
done
cat "$out.err" >&2; exit 1
