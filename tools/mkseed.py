#!/usr/bin/env python3
"""mkseed.py NAME < spec.json : makes /verif/seeded/NAME after confirming it in a scratch copy.
spec: property, needs, what_it_breaks, edits [[file, old, new]...], demo (body of main), backends, features"""
import sys, json, os, subprocess, shutil, tempfile
def run(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$here/demo.rs" "$t/src/main.rs"
rc=0
for be in @BE@; do
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ed448-goldilocks = { path = "$repo", default-features = false, features = ["$be"@FEAT@] }
subtle = "2"
@DEPS@
[profile.dev]
opt-level = 1
T
(cd "$t" && RUSTFLAGS="-Awarnings@CFG@" timeout 250 cargo run --offline --quiet) || rc=1
done
exit $rc
'''
def main(name, spec):
    out = f'/verif/seeded/{name}'
    scratch = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        wt = scratch + '/repo'
        run(['cp', '-a', '/repo', wt]); run(['git', 'checkout', '-q', '--', '.'], cwd=wt)
        d = scratch + '/d'; os.makedirs(d)
        sh = DEMO.replace('@BE@', ' '.join(spec.get('backends', ['fiat_u64_backend']))).replace('@FEAT@', ''.join(f', "{f}"' for f in spec.get('features', []))).replace('@DEPS@', spec.get('deps', '')).replace('@CFG@', ' --cfg ed448_verif' if spec.get('hook') else '')
        open(d + '/demo.sh', 'w').write(sh); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.rs', 'w').write(spec['demo'])
        r = run(['bash', d + '/demo.sh'], cwd=wt)
        if r.returncode: return f'{name}: demo fails on the unchanged tree: {r.stdout[-1500:]}'
        for f, a, b in spec['edits']:
            p = f'{wt}/{f}'; s = open(p).read()
            if s.count(a) < 1: return f'{name}: text not found in {f}: {a[:60]}'
            s = s.replace(a, b, 1); open(p, 'w').write(s)
        diff = run(['git', 'diff'], cwd=wt).stdout
        envsh = open('/opt/vp/env.sh').read()
        t = run(['bash', '-c', 'cd %s; cargo test --offline 2>&1 | grep -E "^test result|FAILED|^error" ; cargo test --offline --no-default-features --features u32_backend 2>&1 | grep -E "^test result|FAILED|^error"' % wt])
        if 'FAILED' in t.stdout or 'error' in t.stdout: return f'{name}: tests fail: ' + ' '.join(t.stdout.split('\n')[:6])
        r = run(['bash', d + '/demo.sh'], cwd=wt)
        if r.returncode == 0: return f'{name}: demo passes with the change'
        os.makedirs(out, exist_ok=True)
        for f in ('demo.sh', 'demo.rs'): shutil.copy(d + '/' + f, out)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({k: spec[k] for k in ('property', 'needs', 'what_it_breaks')}, open(out + '/meta.json', 'w'), indent=1)
        return f'{name}: ok ({[l for l in r.stdout.splitlines() if "panicked" in l or "assert" in l][:1]}) tests {t.stdout.count("ok.")}'
    finally: shutil.rmtree(scratch, ignore_errors=True)
if __name__ == '__main__':
    specs = json.load(sys.stdin)
    names = sys.argv[1:] or list(specs)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda n: main(n, specs[n]), names): print(r, flush=True)
