#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Decides one property on /repo's current working tree:
  1. compiles /repo (both back ends) with the MIR dumper, so that the verified text is
     the compiler's own intermediate code of the code that runs;
  2. generates and discharges the obligations of every goal of the property;
  3. if one is not discharged, searches a failing input against the real crate and
     reports the violation;
  4. writes evidence/<property>.json."""
import sys, os, json, time, shutil, subprocess, tempfile, signal, pickle, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python3'
if os.path.exists(VT) and not sys.executable.startswith('/opt/veriftools/pyvenv'):
    os.execv(VT, [VT] + sys.argv)
sys.path.insert(0, os.path.join(HERE, 'vp'))
sys.setrecursionlimit(40000)
BACKENDS = ('fiat', 'u32')
CORES = os.cpu_count() or 8
GOAL_LIMIT = {'quick': 400, 'thorough': 1500}

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def build_driver():
    d = os.path.join(HERE, 'driver'); b = os.path.join(d, 'target/release/mirdump')
    if not os.path.exists(b) or os.path.getmtime(b) < os.path.getmtime(os.path.join(d, 'src/main.rs')):
        r = sh(['cargo', '+nightly', 'build', '--release', '--offline'], cwd=d)
        if r.returncode: print(r.stdout[-3000:]); sys.exit(3)

def dump_all(scratch):
    """-> {backend: path} or {backend: error text}"""
    ps = {}
    for b in BACKENDS:
        out = os.path.join(scratch, b + '.json')
        ps[b] = (out, subprocess.Popen(['bash', os.path.join(HERE, 'dump.sh'), b, out, os.path.join(scratch, 't_' + b)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    res = {}
    for b, (out, p) in ps.items():
        txt, _ = p.communicate()
        res[b] = (out, None) if p.returncode == 0 and os.path.exists(out) else (None, txt[-2500:])
        shutil.rmtree(os.path.join(scratch, 't_' + b), ignore_errors=True)
    return res

# ---------------------------------------------------------------- goals, one process each
HEAVY = ('edw_torsion_free', 'dec_point_rt', 'edw_mul', 'mont_proj_rt', 'lemma', 'edw_smod4')
SLOW = 150
def run_goals(envs, goals, limit, deadline, filt=None, probe=None):
    import goals as G, gdecaf
    import lemmas, dep
    tasks = []
    for g in goals:
        n = g.split(':')[0]
        bs = ('fiat',) if n.startswith('lemma') else BACKENDS
        for b in bs: tasks.append((b, g))
    def weight(t):
        for i, h in enumerate(HEAVY):
            if t[1].startswith(h): return (i, t[0] != 'u32')
        return (99, t[0] != 'u32')
    tasks.sort(key=weight)
    running = {}; done = []
    def start(task):
        b, g = task; r, w = os.pipe(); pid = os.fork()
        if pid: os.close(w); running[pid] = (task, r, time.time(), []); return
        os.close(r); os.setpgid(0, 0)
        E = envs[b]; n, *a = g.split(':')
        t = time.time()
        try:
            f = getattr(G, n, None) or getattr(gdecaf, n, None) or getattr(dep, n, None) or getattr(lemmas, n)
            f(E, *a)
        except BaseException as e: E.log.obl(f'{b}: {g}', 'obligations generated and discharged', False, f'{type(e).__name__}: {e}')
        L = E.log
        out = dict(n=L.n, failed=L.failed, contracts=L.contracts, trusted=L.trusted, inlined=L.inlined, lemmas=L.lemmas, bounded=L.bounded, time=time.time() - t)
        with os.fdopen(w, 'wb') as fh: pickle.dump(out, fh)
        os._exit(0)
    import select
    search = None; t_fail = None; found = None      # the search for a failing input runs alongside once there is a reason
    def stop(pid, why):
        task, r, t0, buf = running.pop(pid)
        os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(r)
        done.append((task, None, why))
    while tasks or running:
        while tasks and len(running) < CORES and time.time() < deadline: start(tasks.pop(0))
        if tasks and not running:
            for t in tasks: done.append((t, None, 'not started: time limit of the check'))
            break
        fds = {r: pid for pid, (_, r, _, _) in running.items()}
        if search is not None and found is None: fds[search[1]] = None
        rd, _, _ = select.select(list(fds), [], [], 1.0)
        for fd in rd:
            pid = fds[fd]
            d = os.read(fd, 1 << 20)
            if pid is None:
                if d: search[2].append(d); continue
                os.close(fd); os.waitpid(search[0], 0)
                try: found = pickle.loads(b''.join(search[2]))
                except Exception: found = (0, [])
                continue
            task, r, t0, buf = running[pid]
            if d: buf.append(d); continue
            os.close(fd); os.waitpid(pid, 0); del running[pid]
            try:
                res = pickle.loads(b''.join(buf)); done.append((task, res, None))
                if t_fail is None and any(filt is None or filt(f) for f in res['failed']): t_fail = time.time()
            except Exception as e: done.append((task, None, f'worker ended: {e}')); t_fail = t_fail or time.time()
        now = time.time()
        if search is None and probe is not None and (t_fail or any(now - t0 > SLOW for _, _, t0, _ in running.values())):
            r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(r)
                try: res = probe()
                except BaseException: res = (0, [])
                with os.fdopen(w, 'wb') as fh: pickle.dump(res, fh)
                os._exit(0)
            os.close(w); search = (pid, r, [])
        if found and found[1]:
            for pid in list(running): stop(pid, f'not discharged within {int(now - running[pid][2])} s; stopped when a failing input was found')
            for t in tasks: done.append((t, None, 'not started: a failing input was found'))
            tasks = []
            break
        for pid, (task, r, t0, buf) in list(running.items()):
            if now - t0 > limit or now > deadline or (t_fail and now - t_fail > 120): stop(pid, f'not discharged within {int(now - t0)} s')
    if search is not None and found is None:
        while True:
            d = os.read(search[1], 1 << 20)
            if not d: break
            search[2].append(d)
        os.close(search[1]); os.waitpid(search[0], 0)
        try: found = pickle.loads(b''.join(search[2]))
        except Exception: found = (0, [])
    return done, found

# ---------------------------------------------------------------- failing inputs against the real code
def build_native(scratch):
    """-> {(backend, hook): path}; operations on internal methods that were renamed are left out"""
    import re, shutil
    src = os.path.join(HERE, 'native'); out = {}
    for attempt in range(4):
        ps = []; errs = ''
        for b in BACKENDS:
            for hook in (True, False):
                if (b, hook) in out: continue
                t = os.path.join(scratch, f'n_{b}_{int(hook)}')
                env = dict(os.environ, RUSTFLAGS=('--cfg ed448_verif ' if hook else '') + '-Awarnings')
                ps.append((b, hook, t, subprocess.Popen(['cargo', 'build', '--release', '--offline', '--quiet', '--features', b, '--target-dir', t], cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for b, hook, t, p in ps:
            txt, _ = p.communicate()
            e = os.path.join(t, 'release/native')
            if p.returncode == 0 and os.path.exists(e): out[b, hook] = e
            else: errs += txt
        if not errs: break
        bad = {int(n) - 1 for n in re.findall(r'--> src/main\.rs:(\d+):', errs)}
        if src == os.path.join(HERE, 'native'):
            src = os.path.join(scratch, 'native'); shutil.copytree(os.path.join(HERE, 'native'), src, ignore=shutil.ignore_patterns('target'))
        f = os.path.join(src, 'src/main.rs'); L = open(f).read().split('\n')
        bad = {i for i in bad if i < len(L) and re.match(r'\s*"\w+" => .*[,}]$', L[i])}
        if not bad: break
        for i in bad: L[i] = ''
        open(f, 'w').write('\n'.join(L))
    return out

def find_inputs(scratch, ops, seed, seconds, only=None):
    """searches all operations of the property on both back ends in parallel -> (cases, failures)"""
    import diff
    nat = build_native(scratch)
    jobs = []
    for i in range(CORES):
        b = BACKENDS[i % 2]; hook = i // 2 % 2 == 0
        if (b, hook) not in nat: hook = not hook
        if (b, hook) in nat: jobs.append((b, hook, seed * 1000 + i))
    kids = []
    for b, hook, s in jobs:
        r, w = os.pipe(); pid = os.fork()
        if pid: os.close(w); kids.append((pid, r)); continue
        os.close(r)
        try: res = diff.search(nat[b, hook], b, hook, ops, s, seconds, only=only)
        except BaseException as e: res = (0, [])
        with os.fdopen(w, 'wb') as fh: pickle.dump(res, fh)
        os._exit(0)
    n = 0; bad = []
    for pid, r in kids:
        with os.fdopen(r, 'rb') as fh: d = fh.read()
        os.waitpid(pid, 0)
        try: a, f = pickle.loads(d)
        except Exception: continue
        n += a; bad += f
    bad.sort(key=lambda f: (f['representation_hook'], f['op'].startswith('f_')))
    return n, bad

def known(prop):
    try: L = [l.strip() for l in open(os.path.join(HERE, 'known-findings.txt'))]
    except OSError: return []
    return [l[len('finding: '):] for l in L if l.startswith(f'finding: property={prop} ')]

ASSUME = [
 'rustc front end and MIR construction, and the compilation of MIR to machine code, are correct; MIR is taken with overflow checks and debug assertions on, at mir-opt-level 1',
 'the obligation generator and prover of /verif/vp (symbolic execution of MIR, polynomial arithmetic over the integers and over GF(p), GF(l)) is correct; it is cross-checked by the differential runs of the thorough tier',
 'core/alloc functions listed under trusted_models behave as modelled (slices, iterators, Vec, black_box/volatile reads, copy_from_slice)',
 'the textbook theorems the lemma obligations instantiate: Euler\'s criterion, the n-1 and n+1 primality criteria, uniqueness of polynomial normal forms over GF(p), induction on scalars, and (group order only) the theorem of Hasse',
]
def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); deadline = t0 + (600 if tier == 'quick' else 3000)
    build_driver()
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True); os.makedirs(os.path.join(HERE, 'evidence/replay'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=prop + '-', dir=os.path.join(HERE, 'build'))
    try: rc = decide(prop, tier, seed, t0, deadline, scratch)
    finally: shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def decide(prop, tier, seed, t0, deadline, scratch):
    from registry import PROPS
    import goals as G
    spec = PROPS[prop]
    dumps = dump_all(scratch)
    failed = []; n = 0; contracts = {}; trusted = {}; inlined = {}; lem = {}; per = []; bnd = []
    envs = {}
    for b, (path, err) in dumps.items():
        if err is not None: failed.append((b, 'the client program compiles against the crate', err)); continue
        try: envs[b] = G.Env(path, b)
        except Exception as e: failed.append((b, 'obligations generated', f'{type(e).__name__}: {e}'))
    filt = spec.get('filter'); found = None
    t_dump = time.time() - t0
    if len(envs) == len(BACKENDS):
        done, found = run_goals(envs, spec['goals'], GOAL_LIMIT[tier], deadline, filt, lambda: find_inputs(scratch, spec['ops'], seed, 75 if tier == 'quick' else 240, spec.get('only')))
        for task, r, err in done:
            b, g = task
            if r is None: n += 1; failed.append((f'{b}: {g}', 'obligations discharged', err)); continue
            n += r['n']
            failed += [f for f in r['failed'] if filt is None or filt(f)]
            for d, s in ((trusted, r['trusted']), (inlined, r['inlined'])):
                for k, v in s.items(): d[k] = d.get(k, 0) + v
            for k, v in r['contracts'].items(): contracts.setdefault(k, []).extend(x for x in v if x not in contracts.get(k, []))
            lem.update(r['lemmas']); bnd += r['bounded']
            per.append(dict(goal=g, backend=b, obligations=r['n'], failed=len(r['failed']), seconds=round(r['time'], 2)))
    else: n += 1
    for k in contracts: trusted.pop(k, None)          # a dependency's function verified against its contract (dep_subtle)
    cases = 0; bad = []
    if found is not None: cases, bad = found
    elif tier == 'thorough' or failed:
        left = 880 - (time.time() - t0) - 90 if tier == 'quick' else 240
        cases, bad = find_inputs(scratch, spec['ops'], seed, max(20, min(75 if tier == 'quick' else 240, left)), spec.get('only'))
    rc = 0
    kf = known(prop)
    if failed or bad:
        rep = os.path.join(HERE, 'evidence/replay', prop + '.json')
        kinds = []
        for w, x, d in failed:
            if (w, x) not in [(k['where'], k['obligation']) for k in kinds]: kinds.append(dict(where=w, obligation=x, verifier_output=d))
        json.dump(dict(property=prop, tier=tier, seed=seed, failed_obligations=kinds[:60], failing_inputs=bad[:8], cases_tried=cases,
                       how_to_replay='build /verif/native (features fiat or u32; RUSTFLAGS="--cfg ed448_verif" if representation_hook) and feed it the line "<op> <args...>" on stdin, then an empty line'), open(rep, 'w'), indent=1)
        for k in kinds[:6]: print(f"FAILED obligation [{k['where']}] {k['obligation']}: {k['verifier_output'][:300]}")
        for f in bad[:2]: print(f"FAILING input: {f['op']} ({f['backend']}) {' '.join(f['args'])[:400]} -> {f['got'][:200]}, expected {f['expected'][:200]}")
        print(f'VIOLATION property={prop} replay={rep}' + ('' if bad else ' no-failing-input-found'))
        rc = 1
    for l in kf: print('KNOWN-FINDING: ' + l)
    nf = len(failed)
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 1), violations=int(rc),
      coverage=dict(obligations=n, discharged=n - nf, checker_cmd=f'python3 check.py {prop} {tier}',
        trusted_base=['rustc nightly (MIR)', '/verif/driver (MIR dump through rustc_public)', '/verif/vp (obligation generator and prover: exact polynomial arithmetic over Z, GF(p), GF(l); interval and gate reasoning)', 'Z3 (obligations the native prover leaves open, and the bit-level primitives of subtle)', 'Python 3 integers'] + sorted('model of ' + k for k in trusted),
        back_ends=list(BACKENDS), goals=per, goal_count=len(per), solver_seconds=round(sum(p['seconds'] for p in per), 1), mir_extraction_seconds=round(t_dump, 1),
        functions_under_contract=[dict(function=k, contracts=v) for k, v in sorted(contracts.items())],
        functions_inlined=sorted(inlined), trusted_models=sorted(trusted), lemmas=lem, bounded=spec.get('bounded', []) + bnd,
        reference_cases=cases, samples=[p['goal'] for p in per[:6]]),
      assumptions=ASSUME + spec.get('assume', []))
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print(f'{prop} {tier}: {n - nf}/{n} obligations discharged, {len(per)} goals, {time.time() - t0:.0f} s' + (f', {cases} reference cases' if cases else ''))
    return rc

if __name__ == '__main__': main()
