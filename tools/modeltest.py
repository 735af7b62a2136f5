#!/usr/bin/env python3
"""modeltest.py [names]: the engine's evaluation of idioms of core/alloc, compared with running them natively."""
import sys, os, subprocess
VT = '/opt/veriftools/pyvenv/bin/python3'
if not sys.executable.startswith('/opt/veriftools/pyvenv'): os.execv(VT, [VT] + sys.argv)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/vp'); sys.setrecursionlimit(40000)
S = '/tmp/modeltest'; os.makedirs(S, exist_ok=True)
def sh(c, **e): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={**os.environ, **e}, cwd=V + '/tools/modeltest')
r = sh(f'cargo run --offline --quiet --bin mt --target-dir {S}/n')
if r.returncode: print(r.stderr[-3000:]); sys.exit(2)
want = {}
for l in r.stdout.splitlines():
    n, i, v = l.split(); want[n, int(i)] = v
sysroot = sh('rustc +nightly --print sysroot').stdout.strip()
sh('touch src/lib.rs')
r = sh(f'cargo +nightly check --lib --offline --quiet --target-dir {S}/d', LD_LIBRARY_PATH=sysroot + '/lib', RUSTC_WORKSPACE_WRAPPER=V + '/driver/target/release/mirdump',
       RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=1 -Cdebug-assertions=on -Coverflow-checks=on -Awarnings', MIRDUMP_CRATE='vharness', MIRDUMP_ROOT_CRATES='vharness', MIRDUMP_OUT=S + '/d.json')
if r.returncode: print(r.stderr[-3000:]); sys.exit(2)
from mir import Prog
from exec import *
from goals import VarScope
prog = Prog(S + '/d.json')
TR = []
_o = Exec.inline
def _inl(self, st, idx, args):
    try: return _o(self, st, idx, args)
    except Exception:
        if not getattr(self, '_tr', 0): self._tr = 1; TR[:] = [prog.insts[f.idx]['tdef'] for f in self.stack] + [prog.insts[idx]['tdef'] + f" bb"]
        raise
Exec.inline = _inl
INS = [([1, 7, 3, 0xffffffff, 5, 0x80000000, 77, 9], [0x80, 7, 4, 1, 0x12345678, 6, 78, 10]), ([0x123456ff] * 8,) * 2, ([0, 0, 0, 7, 1, 2, 3, 4], [1, 2, 3, 4, 5, 6, 7, 8])]
bad = 0; symbad = 0
names = [n for n in dict.fromkeys(n for n, _ in want) if not sys.argv[1:] or n in sys.argv[1:]]
import signal
class TO(Exception): pass
def _al(*a): raise TO()
signal.signal(signal.SIGALRM, _al)
for n in names:
    signal.alarm(20); sys.stdout.flush()
    for i, (a, b) in enumerate(INS):
        try:
            ex = Exec(prog); ex.panics_ok = True
            outs = ex.call_inst(State(), next(i for k, i in prog.roots.items() if k.split('::')[-1] == n), [Agg(a), Agg(b)])
            g = str(outs[0][2]) if outs else 'panic'
        except Exception as e:
            g = f'{type(e).__name__}: {e}'
            if len(sys.argv) > 1: import traceback; traceback.print_exc(limit=-3); print('   stack', TR)
        if g != want[n, i]: bad += 1; print('DIFF', n, i, 'native', want[n, i], 'engine', g[:300]); break
    try:
        vs = VarScope(); vs.__enter__()
        ex = Exec(prog); ex.panics_ok = True
        A, B = [Agg([fresh(0, 2**32 - 1, f'{x}{j}', 'in') for j in range(8)]) for x in 'ab']
        outs = ex.call_inst(State(), next(i for k, i in prog.roots.items() if k.split('::')[-1] == n), [A, B])
    except Exception as e: symbad += 1; print('   sym', n, f'{type(e).__name__}: {str(e)[:200]}')
print(len(names), 'idioms,', bad, 'differ,', symbad, 'not executable on symbolic input')
