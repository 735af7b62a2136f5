#!/usr/bin/env python3
"""tryrefac.py [NAME...]: applies behaviour-preserving edits (refactor/*.py: EDITS = {name: [(file, old, new)]})
to a scratch copy of /repo, runs its tests, and runs every goal on it: all must stay discharged."""
import sys, os, subprocess, shutil, tempfile, glob, time, runpy
VT = '/opt/veriftools/pyvenv/bin/python3'
if not sys.executable.startswith('/opt/veriftools/pyvenv'): os.execv(VT, [VT] + sys.argv)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + '/vp')
sys.setrecursionlimit(40000)
def run(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    import check
    from registry import PROPS
    import goals as G
    specs = {}
    for f in sorted(glob.glob(V + '/tools/refactor/*.py')): specs.update(runpy.run_path(f)['EDITS'])
    for name in sys.argv[1:] or list(specs):
        t0 = time.time()
        s = tempfile.mkdtemp(prefix='rf-', dir='/tmp')
        try:
            run(['cp', '-a', '/repo', s + '/repo']); run(['git', 'checkout', '-q', '--', '.'], cwd=s + '/repo')
            bad = None
            for f, a, b in specs[name]:
                p = f'{s}/repo/{f}'; t = open(p).read()
                if a not in t: bad = f'text not found in {f}: {a[:50]!r}'; break
                open(p, 'w').write(t.replace(a, b, 1))
            if bad: print(name, bad); continue
            t = run(['bash', '-c', 'cd %s/repo; cargo test --offline 2>&1 | grep -E "^test result|FAILED|^error" ; cargo test --offline --no-default-features --features u32_backend 2>&1 | grep -E "^test result|FAILED|^error"' % s])
            if 'FAILED' in t.stdout or 'error' in t.stdout: print(name, 'TESTS FAIL', t.stdout[:600]); continue
            h = s + '/v'; os.makedirs(h)
            shutil.copytree(V + '/harness', h + '/harness', ignore=shutil.ignore_patterns('target')); shutil.copy(V + '/dump.sh', h)
            os.symlink(V + '/driver', h + '/driver')
            c = open(h + '/harness/Cargo.toml').read(); open(h + '/harness/Cargo.toml', 'w').write(c.replace('"/repo"', f'"{s}/repo"'))
            envs = {}
            for b in check.BACKENDS:
                r = run(['bash', h + '/dump.sh', b, f'{s}/{b}.json', f'{s}/t_{b}'])
                if r.returncode: print(name, 'DUMP FAILS', r.stdout[-800:]); break
                envs[b] = G.Env(f'{s}/{b}.json', b)
            if len(envs) < 2: continue
            done, _ = check.run_goals(envs, os.environ['GOALS'].split(',') if 'GOALS' in os.environ else PROPS['C18']['goals'], 400, time.time() + 800)
            failed = []
            slow = max((r['time'], t) for t, r, e in done if r)
            bounded = []
            for task, r, err in done:
                if r is None: failed.append((task, err))
                else:
                    bounded += r['bounded']
                    if r['failed']: failed.append((task, r['failed'][0]))
            print(f'{name}: {"QUIET" if not failed else "ALARM"} {time.time() - t0:.0f} s, slowest {slow[0]:.0f} s {slow[1]}', bounded[:1] or '', flush=True)
            for t, f in failed[:8]: print('    ', t, str(f)[:700], flush=True)
            if len(failed) > 8: print('     ...', len(failed), 'goals')
        finally: shutil.rmtree(s, ignore_errors=True)
main()
