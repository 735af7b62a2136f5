"""Execution of the real code over abstract group elements.

A point is an integer combination of named points (coefficients may depend on
the scalar's bits); every function that looks at coordinates is replaced by a
contract "result = sum c_i P_i in representation K" that is inferred and then
proved at field level (fex) for all points of the curve."""
from fex import *
import itertools

D1 = -39081 % PP
D2 = -39082 % PP
def chi(a):
    a %= PP
    return 0 if a == 0 else 1 if pow(a, (PP - 1) // 2, PP) == 1 else -1
def msqrt(a):
    r = pow(a, (PP + 1) // 4, PP)
    return r if r * r % PP == a % PP else None

# ---------------------------------------------------------------- numeric reference
class Curve:
    def __init__(self, name, a, d): self.name, self.a, self.d = name, a, d
    def add(self, P, Q):
        x1, y1 = P; x2, y2 = Q
        t = self.d * x1 * x2 * y1 * y2 % PP
        return ((x1 * y2 + y1 * x2) * pow(1 + t, -1, PP) % PP, (y1 * y2 - self.a * x1 * x2) * pow(1 - t, -1, PP) % PP)
    def neg(self, P): return (-P[0] % PP, P[1])
    def mul(self, k, P):
        if k < 0: k, P = -k, self.neg(P)
        r = (0, 1)
        for b in bin(k)[2:]:
            r = self.add(r, r)
            if b == '1': r = self.add(r, P)
        return r
    def on(self, P):
        x, y = P
        return (self.a * x * x + y * y - 1 - self.d * x * x * y * y) % PP == 0
    def dom(self, P):
        """E2: the points of 2E, on which the addition law is complete (lemma E2-complete)"""
        return self.on(P) and (self.name == 'E1' or chi(1 + P[0] * P[0]) == 1)
    def random(self, R):
        while True:
            x = R.randrange(PP)
            y2 = (1 - self.a * x * x) * pow(1 - self.d * x * x, -1, PP) % PP
            y = msqrt(y2)
            if y is None: continue
            P = (x, y if R.random() < .5 else -y % PP)
            if self.name == 'E2': P = self.add(P, P)
            return P
E1, E2 = Curve('E1', 1, D1), Curve('E2', -1 % PP, D2)
def phi(P):
    x, y = P
    return (2 * x * y * pow(y * y - x * x, -1, PP) % PP, (y * y + x * x) * pow(2 - y * y - x * x, -1, PP) % PP)
def psi(P):
    x, y = P
    return (2 * x * y * pow(y * y + x * x, -1, PP) % PP, (y * y - x * x) * pow(2 - y * y + x * x, -1, PP) % PP)

# ---------------------------------------------------------------- symbolic points
class SPt:
    """affine coordinates (Q) of a generic point of a curve"""
    def __init__(self, cu, x, y): self.cu, self.x, self.y = cu, x, y
def q_add(P, Q):
    c = P.x.x; one = c.const(1); cu = P.cu
    t = c.const(cu.d) * P.x * Q.x * P.y * Q.y
    return SPt(cu, (P.x * Q.y + P.y * Q.x) * (one + t).inv(), (P.y * Q.y - c.const(cu.a) * P.x * Q.x) * (one - t).inv())
def q_neg(P): return SPt(P.cu, -P.x, P.y)
def q_id(ctx, cu): return SPt(cu, ctx.const(0), ctx.const(1))
def q_mul(k, P):
    if k < 0: k, P = -k, q_neg(P)
    if k == 0: return q_id(P.x.x, P.cu)
    r = P
    for b in bin(k)[3:]:
        r = q_add(r, r)
        if b == '1': r = q_add(r, P)
    return r
def q_phi(P):
    c = P.x.x; two = c.const(2); xx, yy = P.x * P.x, P.y * P.y
    return SPt(E2, two * P.x * P.y * (yy - xx).inv(), (yy + xx) * (two - yy - xx).inv())
def q_psi(P):
    c = P.x.x; two = c.const(2); xx, yy = P.x * P.x, P.y * P.y
    return SPt(E1, two * P.x * P.y * (yy + xx).inv(), (yy - xx) * (two - yy + xx).inv())
def q_combo(ctx, cu, pts, cs, tau):
    """sum c_i P_i (+ (0,-1)) where points of the other curve are carried over by phi / psi"""
    r = None
    for P, c in zip(pts, cs):
        if c == 0: continue
        t = q_mul(c, P)
        if P.cu is not cu: t = q_phi(t) if cu is E2 else q_psi(t)
        r = t if r is None else q_add(r, t)
    if r is None: r = q_id(ctx, cu)
    if tau: r = SPt(cu, -r.x, -r.y)
    return r

class Setup:
    """generic points in a field context, with the proved nonvanishing facts (lemmas)"""
    def __init__(self, ctx, seed=1):
        self.ctx = ctx; self.pts = []; self.R = random.Random(seed)
        self.assign = {}
        ctx.hints = []
    def point(self, cu, name, const=None):
        c = self.ctx
        if const is not None:
            p = SPt(cu, c.const(const[0]), c.const(const[1]))
            self.pts.append((p, const)); self.hints(p)
            return p
        x, y = c.atom('x' + name), c.atom('y' + name)
        di = pow(cu.d, -1, PP)
        c.add_rule(((x, 2), (y, 2)), {((x, 2),): cu.a * di % PP, ((y, 2),): di, (): -di % PP})
        n = cu.random(self.R)
        self.assign[x], self.assign[y] = n
        p = SPt(cu, c.of_atom(x), c.of_atom(y))
        self.pts.append((p, n)); self.hints(p)
        return p
    def hints(self, p):
        c = self.ctx; one = c.const(1)
        def h(q):
            if q.c and q.f: c.hints.append(q.norm().expand())
        # lemma complete: 1 +- d x1 x2 y1 y2 != 0 for points of the same curve (E2: of 2E)
        for q, _ in self.pts:
            if q.cu is p.cu:
                t = c.const(p.cu.d) * p.x * q.x * p.y * q.y
                h(one + t); h(one - t)
        xx, yy = p.x * p.x, p.y * p.y
        # lemma y2-x2 (E1: 1-d is a nonsquare; E2: = 1 + d x^2 y^2), lemma x2+y2 (E1: = 1 + d x^2y^2; E2: -1 is a nonsquare)
        h(yy - xx); h(yy + xx)
        if p.cu is E2: h(p.y)        # 1 + x^2 != 0
    def scale(self, name):
        z = self.ctx.atom(name, True)
        self.assign[z] = self.R.randrange(1, PP)
        return self.ctx.of_atom(z)
    def free(self, name, val=None):
        a = self.ctx.atom(name); self.assign[a] = self.R.randrange(1, PP) if val is None else val
        return self.ctx.of_atom(a)
    def eval(self, q):
        r = q.c
        for k, e in q.f.items():
            r = r * pow(self.evalbase(k), e % (PP - 1) if e >= 0 else e, PP) % PP
        return r
    def evalbase(self, k):
        if k[0] == 'a': return self.assign[k[1]]
        s = 0
        for t, c in self.ctx.bases[k].items():
            for a, e in t: c = c * pow(self.assign[a], e, PP) % PP
            s += c
        return s % PP

# ---------------------------------------------------------------- representations
class Kind:
    def __init__(self, name, cu, t, fields): self.name, self.cu, self.t, self.fields = name, cu, t, fields
    def __repr__(self): return self.name

class Kinds:
    def __init__(self, prog, ty):
        self.prog, self.ty = prog, ty
        self.by_ty = {}
        for i, t in enumerate(prog.tys):
            if t['k'] != 'adt' or t['ak'] != 'struct' or not t['n'].startswith('ed448_goldilocks::'): continue
            fs = t['v'][0]['f']
            if not fs or any(f[1] != ty.fe for f in fs): continue
            names = [f[0] for f in fs]; n = t['n']; tw = 'twedwards' in n
            cu = E2 if tw else E1
            k = None
            if set(names) == {'X', 'Y', 'Z', 'T'}: k = ('E2ext' if tw else 'E1ext')
            elif set(names) == {'X', 'Y', 'Z', 'T1', 'T2'}: k = 'E2extensible'; cu = E2
            elif set(names) == {'Y_plus_X', 'Y_minus_X', 'Td', 'Z'}: k = 'E2niels'; cu = E2
            elif set(names) == {'x', 'y'}: k = 'E2affine' if tw else 'E1affine'
            elif set(names) == {'U', 'W'}: k = 'mont'; cu = None
            if k: self.by_ty[i] = Kind(k, cu, i, names)
        self.by_name = {k.name: k for k in self.by_ty.values()}
    def build(self, k, S, p, name, bounds, scale=True):
        """generic representation (Agg of FEV) of the symbolic point p; p None for mont"""
        c = S.ctx
        if k.name == 'mont':
            d = {'U': S.free('U' + name), 'W': S.free('W' + name)}
        else:
            z = S.scale('z' + name) if scale and 'affine' not in k.name else c.const(1)
            x, y = p.x, p.y
            if k.name in ('E1ext', 'E2ext'): d = dict(X=x * z, Y=y * z, Z=z, T=x * y * z)
            elif k.name == 'E2extensible':
                if x.f:
                    xi = next(b for b in x.f)[1]; yi = next(b for b in y.f)[1]; zi = next(b for b in z.f)[1]
                    t1 = c.atom('t1' + name); t2 = c.atom('t2' + name)
                    co = x.c * y.c * z.c % PP
                    c.add_rule(((t1, 1), (t2, 1)), {tuple(sorted(((xi, 1), (yi, 1), (zi, 1)))): co})
                    n = co * S.assign[xi] * S.assign[yi] * S.assign[zi] % PP
                    S.assign[t1] = S.R.randrange(1, PP); S.assign[t2] = n * pow(S.assign[t1], -1, PP) % PP
                    T1, T2 = c.of_atom(t1), c.of_atom(t2)
                else: T1, T2 = x * y * z, c.const(1)
                d = dict(X=x * z, Y=y * z, Z=z, T1=T1, T2=T2)
            elif k.name == 'E2niels': d = dict(Y_plus_X=(y + x) * z, Y_minus_X=(y - x) * z, Z=z * 2, Td=x * y * z * (2 * D2))
            elif 'affine' in k.name: d = dict(x=x, y=y)
        return Agg([FEV(d[f], b) for f, b in zip(k.fields, bounds)]), d
    def is_rep(self, k, ctx, v, e, fe_value):
        """list of (description, Q that must be zero / 'nz' Q that must be nonzero): v represents the affine point e"""
        d = {f: fe_value(x)[0] for f, x in zip(k.fields, v.f)}
        if k.name in ('E1ext', 'E2ext'):
            return [('nz', 'Z != 0', d['Z']), ('z', 'X = xZ', d['X'] - e.x * d['Z']), ('z', 'Y = yZ', d['Y'] - e.y * d['Z']), ('z', 'T = xyZ', d['T'] - e.x * e.y * d['Z'])]
        if k.name == 'E2extensible':
            return [('nz', 'Z != 0', d['Z']), ('z', 'X = xZ', d['X'] - e.x * d['Z']), ('z', 'Y = yZ', d['Y'] - e.y * d['Z']), ('z', 'T1 T2 = xyZ', d['T1'] * d['T2'] - e.x * e.y * d['Z'])]
        if k.name == 'E2niels':
            h = d['Z'] * pow(2, -1, PP)
            return [('nz', 'Z != 0', d['Z']), ('z', '2(Y+X) = (y+x)Z', d['Y_plus_X'] - (e.y + e.x) * h), ('z', '2(Y-X) = (y-x)Z', d['Y_minus_X'] - (e.y - e.x) * h), ('z', 'Td = d xyZ', d['Td'] - e.x * e.y * d['Z'] * D2)]
        if 'affine' in k.name: return [('z', 'x', d['x'] - e.x), ('z', 'y', d['y'] - e.y)]
        raise Unsupported('kind')
    def numeric_affine(self, k, vals):
        """affine point (numbers) represented by numeric coordinates, None if invalid"""
        d = dict(zip(k.fields, vals))
        iv = lambda a: pow(a, -1, PP)
        try:
            if k.name in ('E1ext', 'E2ext'):
                p = (d['X'] * iv(d['Z']) % PP, d['Y'] * iv(d['Z']) % PP); ok = (d['T'] - p[0] * p[1] * d['Z']) % PP == 0
            elif k.name == 'E2extensible':
                p = (d['X'] * iv(d['Z']) % PP, d['Y'] * iv(d['Z']) % PP); ok = (d['T1'] * d['T2'] - p[0] * p[1] * d['Z']) % PP == 0
            elif k.name == 'E2niels':
                h = iv(d['Z']); p = ((d['Y_plus_X'] - d['Y_minus_X']) * h % PP, (d['Y_plus_X'] + d['Y_minus_X']) * h % PP); ok = (d['Td'] - D2 * p[0] * p[1] * d['Z']) % PP == 0
            elif 'affine' in k.name: p = (d['x'], d['y']); ok = True
            else: return None
        except ValueError: return None
        return p if ok and k.cu.dom(p) else None

class PointV(Opq):
    """integer combination of named points, in representation kind"""
    def __init__(self, kind, co, b): self.kind, self.co, self.b = kind, {k: v for k, v in co.items() if not (isinstance(v, int) and v == 0)}, b
    def __repr__(self): return f'Point[{self.kind} {({k: (v if isinstance(v, int) else "..") for k, v in self.co.items()})}]'
    def project(self, ex, st, i):
        if getattr(ex, 'openmode', False) and ex.opening: return ex.rep(self).f[i]
        raise NeedRep(self)
class MontV(Opq):
    """the x-only ladder value R(level, idx) over the base `base` (RFC 7748 step function)"""
    def __init__(self, level, idx, base, b): self.level, self.idx, self.base, self.b = level, idx, base, b
    def __repr__(self): return f'Mont[{self.level},{self.idx!r:.60}]'

TORSION = ('const', (0, PP - 1))

# ---------------------------------------------------------------- contracts of point functions
class Mismatch(Exception): pass

class PointContracts:
    def __init__(self, prog, ty, fc, kinds, backend, log):
        self.prog, self.ty, self.fc, self.kinds, self.backend, self.log = prog, ty, fc, kinds, backend, log
        self.memo = {}; self.why = {}
    def shape(self, t):
        """('pt',kind)|('fe',)|('int',)|('choice',)|('agg',t,[shapes])|('unit',) or None"""
        T = self.prog.tys[t]
        if t in self.kinds.by_ty: return ('pt', self.kinds.by_ty[t])
        if t == self.ty.fe: return ('fe',)
        if t == self.ty.choice: return ('choice',)
        if t == self.ty.scalar: return None
        if self.prog.intinfo(t): return ('int',)
        if T['k'] == 'array':
            if T['n'] > 16: return None
            s = self.shape(T['e'])
            return s and ('agg', t, [s] * T['n'])
        if T['k'] == 'tuple':
            ss = [self.shape(f) for f in T['f']]
            return None if None in ss else ('agg', t, ss)
        if T['k'] == 'adt' and T['ak'] == 'struct' and T['n'].startswith('ed448_goldilocks'):
            ss = [self.shape(f[1]) for f in T['v'][0]['f']]
            return None if None in ss else ('agg', t, ss)
        return None
    def psig(self, idx):
        inst = self.prog.insts[idx]
        c = inst.get('_psig')
        if c is None:
            c = False
            if inst.get('body') and inst['crate'] == 'ed448_goldilocks' and not CLOSURE(inst['name']):
                b = inst['body']
                ps = []
                for t in b['locals'][1:1 + b['argc']]:
                    mode, tt = self.ty.strip(t)
                    s = self.shape(tt)
                    if s is None: break
                    ps.append((mode, tt, s))
                else:
                    rs = self.shape(b['locals'][0])
                    if rs is not None and any(self.haspt(s) for _, _, s in ps): c = (ps, rs)
            inst['_psig'] = c
        return c
    def multiplies(self, idx):
        """does the function reach one that takes a scalar?  Its contract is not sought on coordinates"""
        inst = self.prog.insts[idx]
        if '_mul' not in inst:
            seen = {idx}; work = [idx]; hit = False
            while work and not hit:
                b = self.prog.insts[work.pop()].get('body')
                if not b: continue
                if any(self.ty.strip(t)[1] == self.ty.scalar for t in b['locals'][1:1 + b['argc']]): hit = True
                for bl in b['blocks']:
                    t = bl['t']
                    if t[0] == 'call' and isinstance(t[1], int) and t[1] not in seen: seen.add(t[1]); work.append(t[1])
            inst['_mul'] = hit
        return inst['_mul']
    def haspt(self, s): return s[0] == 'pt' or s[0] == 'agg' and any(self.haspt(x) for x in s[2])
    def flatten(self, s, v, out):
        if s[0] == 'agg':
            if isinstance(v, Ite): raise Unsupported('merged aggregate')
            for ss, x in zip(s[2], v.f): self.flatten(ss, x, out)
        else: out.append((s, v))
    def unflatten(self, s, it):
        if s[0] == 'agg': return Agg([self.unflatten(x, it) for x in s[2]])
        v = next(it)
        return Agg([v]) if s[0] == 'choice' and not isinstance(v, Agg) else v
    def get(self, idx, descr):
        key = (idx, descr)
        if key not in self.memo:
            t0 = time.time()
            n0 = self.log.n; nf = len(self.log.failed)
            with VarScope():
                r = self.infer(idx, descr)
            if r is not None:
                name = self.prog.insts[idx]['name']
                self.log.contracts.setdefault(f'{self.backend}: {name}', []).append(dict(result=r['text'], time=round(time.time() - t0, 2), obligations=self.log.n - n0))
            else:
                self.log.attempts += self.log.failed[nf:] or [(f"{self.backend}:{self.prog.insts[idx]['name']}", 'result is a fixed combination of the points', self.why.get(key, ''))]
                del self.log.failed[nf:]; self.log.n = n0
            self.memo[key] = r
        return self.memo[key]

    def infer(self, idx, descr):
        inst = self.prog.insts[idx]; where = f"{self.backend}:{inst['name']}"
        ps, rs = self.psig(idx)
        npt = sum(d[0] == 'pt' for ds in descr for d in ds)
        if npt > 3: return None
        if self.multiplies(idx):
            self.why[(idx, descr)] = 'multiplies by a scalar'; return None
        chosen = {}
        texts = {}
        def body(ctx):
            S = Setup(ctx)
            ex = FEx(self.prog, self.ty, self.fc, ctx); st = State()
            args = []; pts = []; monts = []; fes = []
            for (mode, t, s), ds in zip(ps, descr):
                vals = []
                for d in ds:
                    if d[0] == 'pt':
                        k = self.kinds.by_name[d[1]]
                        if k.name == 'mont':
                            v, dd = self.kinds.build(k, S, None, str(len(monts)), d[2]); monts.append(dd)
                        else:
                            p = S.point(k.cu, str(len(pts)))
                            v, _ = self.kinds.build(k, S, p, str(len(pts)), d[2]); pts.append(p)
                    elif d[0] == 'fec': v = self.ty.build(self.ty.fe, iter(d[1]))
                    elif d[0] == 'fev':
                        q = S.free(f'f{len(fes)}'); fes.append(q); v = FEV(q, d[1])
                    elif d[0] == 'choice': v = d[1]
                    else: v = d[1]
                    vals.append(v)
                v = self.unflatten(s, iter(vals))
                args.append(v if mode == 'val' else Ref(ex.new_cell(st, v)))
            outs = ex.call_inst(st, idx, args)
            self.log.absorb(ex, where)
            if len(outs) != 1: raise Mismatch('several outcomes')
            st2 = outs[0][1]
            res = []
            self.flatten(rs, outs[0][2], res)
            for (mode, t, s), a in zip(ps, args):
                if mode == 'mut': self.flatten(s, ex.load(st2, a), res)
            for oi, (s, v) in enumerate(res):
                if isinstance(v, Ite): v = ex.force(st2, v)
                if s[0] == 'pt' and s[1].name == 'mont': self.match_mont(ctx, S, ex, oi, s[1], v, monts, fes, chosen, texts, where)
                elif s[0] == 'pt': self.match_pt(ctx, S, ex, oi, s[1], v, pts, chosen, texts, where)
                elif s[0] in ('choice', 'int'):
                    c = ex.resolve(v.f[0] if s[0] == 'choice' else v)
                    if not iscon(c): raise Mismatch('result not determined')
                    self.match_pred(ctx, oi, c, pts, chosen, texts, where)
                elif s[0] == 'fe': raise Mismatch('field element result')
        err = None
        for pr in ('const', 'eq', 'eqtors'):
            chosen.clear(); texts.clear(); chosen['pred'] = pr
            n0 = self.log.n
            try:
                run_all(PP, body, 256); err = None
                break
            except Mismatch as e:
                err = e; self.log.n = n0
                if not chosen.get('haspred'): break
        if err is not None:
            self.why[(idx, descr)] = str(err); return None
        outs = [chosen[k] for k in sorted(k for k in chosen if isinstance(k, int))]
        return dict(outs=outs, text='; '.join(texts[k] for k in sorted(texts)))

    def bounds(self, ex, k, v):
        return tuple(self.fc.widen(ex.fe_value(x)[1]) for x in v.f)
    def silent(self, ctx, f):
        old = ctx.oracle
        def stop(kind, key): raise Undecided((kind, key))
        ctx.oracle = stop
        try: return f()
        except (Undecided, Incomplete): return None
        finally: ctx.oracle = old
    def match_pt(self, ctx, S, ex, oi, k, v, pts, chosen, texts, where):
        if not isinstance(v, Agg): raise Mismatch('result shape')
        if oi not in chosen:
            num = [S.eval(ex.fe_value(x)[0].norm()) for x in v.f]
            p = self.kinds.numeric_affine(k, num)
            if p is None: raise Mismatch(f'not a valid {k.name} of a curve point')
            nums = [n for q, n in S.pts]
            best = None
            R = 2 if len(pts) > 1 else 4
            for cs in sorted(itertools.product(range(-R, R + 1), repeat=len(pts)), key=lambda c: (sum(abs(x) for x in c), [-x for x in c])):
                for tau in (0, 1):
                    r = (0, 1)
                    for q, n, c in zip(pts, nums, cs):
                        if not c: continue
                        t = q.cu.mul(c, n)
                        if q.cu is not k.cu: t = phi(t) if k.cu is E2 else psi(t)
                        r = k.cu.add(r, t)
                    if tau: r = (-r[0] % PP, -r[1] % PP)
                    if r == p: best = (cs, tau); break
                if best: break
            if best is None: raise Mismatch('result is no small combination of the arguments')
            chosen[oi] = ('pt', k.name, best[0], best[1], self.bounds(ex, k, v))
        _, _, cs, tau, b = chosen[oi]
        nb = self.bounds(ex, k, v)
        if nb != b:
            b = tuple(tuple((min(x[0], y[0]), max(x[1], y[1])) for x, y in zip(p, q)) for p, q in zip(b, nb))
            chosen[oi] = ('pt', k.name, cs, tau, b)
        e = q_combo(ctx, k.cu, pts, cs, tau)
        texts[oi] = f"{k.name} of " + (' + '.join((f'{c}*' if c != 1 else '') + ('' if q.cu is k.cu else 'phi' if k.cu is E2 else 'dual') + f'(P{i})' for i, (q, c) in enumerate(zip(pts, cs)) if c) or 'identity') + (' + (0,-1)' if tau else '')
        for what, d, q in self.kinds.is_rep(k, ctx, v, e, ex.fe_value):
            if what == 'z': ok = self.silent(ctx, lambda: q.same(ctx.const(0)))
            else: ok = self.silent(ctx, lambda: not q.is_zero())
            if not ok: raise Mismatch(f'{d} not provable')
            self.log.obl(where, f'{texts[oi]}: {d}', True)
    def match_mont(self, ctx, S, ex, oi, k, v, monts, fes, chosen, texts, where):
        d = {f: ex.fe_value(x)[0] for f, x in zip(k.fields, v.f)}
        cands = []
        for j, m in enumerate(monts): cands.append((('same', j), m['U'], m['W']))
        for j, m in enumerate(monts):
            A, B = m['U'] + m['W'], m['U'] - m['W']
            AA, BB = A * A, B * B; E = AA - BB
            cands.append((('dbl', j), AA * BB, E * (AA + E * 39081)))       # RFC 7748, a24 = 39081
        if len(monts) == 2 and fes:
            (m, n) = monts
            DA, CB = (n['U'] - n['W']) * (m['U'] + m['W']), (n['U'] + n['W']) * (m['U'] - m['W'])
            x3, z3 = (DA + CB), (DA - CB)
            cands.append((('dadd', 0, 1), x3 * x3, fes[0] * z3 * z3))
        for c, U, W in cands:
            if (oi not in chosen or chosen[oi][2] == c) and self.silent(ctx, lambda: d['U'].same(U) and d['W'].same(W)):
                chosen[oi] = ('mont', k.name, c, self.bounds(ex, k, v)); texts[oi] = f'out{oi} = {c} (RFC 7748 step)'
                self.log.obl(where, texts[oi], True)
                return
        raise Mismatch('not an RFC 7748 ladder value')
    def match_pred(self, ctx, oi, c, pts, chosen, texts, where):
        chosen['haspred'] = True
        pr = chosen['pred']
        if pr == 'const':
            if oi in chosen and chosen[oi][1] != c: raise Mismatch('not constant')
            if ctx.trace: raise Mismatch('depends on the argument')
            chosen[oi] = ('const', c); texts[oi] = f'= {c}'; return
        if len(pts) == 2: a, b = pts
        elif len(pts) == 1: a, b = pts[0], q_id(ctx, pts[0].cu)
        else: raise Mismatch('predicate')
        if pr == 'eq': exp = int((a.x - b.x).is_zero() and (a.y - b.y).is_zero())
        else: exp = int((a.x * b.y - a.y * b.x).is_zero())
        if exp != c: raise Mismatch('predicate differs')
        chosen[oi] = ('pred', pr, len(pts)); texts[oi] = 'true iff ' + ('P0 = P1' if pr == 'eq' else 'P0 - P1 in {O,(0,-1)}')
        self.log.obl(where, texts[oi], True)

# ---------------------------------------------------------------- the executor
def cadd(a, b, k=1):
    r = dict(a)
    for n, c in b.items():
        t = add(r.get(n, 0), mul(k, c))
        if iscon(t) and t == 0: r.pop(n, None)
        else: r[n] = t
    return r

def reduce_co(d, rel):
    """d modulo the combinations in rel, which are the identity"""
    rels = [dict(r) for r in rel]
    while rels:
        r = rels.pop()
        if not r: continue
        n = next((k for k, c in r.items() if k != TORSION and iscon(c) and abs(c) == 1), None)
        if n is None:
            # d a constant multiple of the relation
            n, p = next(((k, P(c)) for k, c in r.items() if k != TORSION), (None, None))
            if n is None or n not in d or not p: continue
            q = P(d[n]); mo = next(iter(p))
            m, rem = divmod(q.get(mo, 0), p[mo])
            if not rem and m and pscale(p, m) == q: d = cadd(d, r, -m)
            continue
        red = lambda e: cadd(e, r, sub(0, mul(e[n], r[n]))) if n in e else e
        d = red(d); rels = [red(x) for x in rels]
    if iscon(d.get(TORSION, 0)) and d.get(TORSION, 0) % 2 == 0: d = {k: c for k, c in d.items() if k != TORSION}
    return d

class GEx(FEx):
    def __init__(self, prog, ty, fc, ctx, pc):
        super().__init__(prog, ty, fc, ctx)
        self.pc = pc; self.kinds = pc.kinds
        self.preds = {}
        self.evars = {}
        self.fails = []
        self.enum_on = True
        self.montco = []
        self.bnames = {}; self.bdefs = {}
        self.openmode = False; self.opening = 1
    # ---- points given by coordinates (second attempt of a goal, under enumerated decisions)
    def open_on(self):
        self.openmode = True; self.S = Setup(self.ctx)
        self.opened = {}; self.openrep = {}; self.rel = []; self.gen = []
    def cokey(self, co, cu): return (cu.name, frozenset((k, pkey(P(c))) for k, c in co.items()))
    def open_co(self, co, cu):
        """affine coordinates of the combination co: constants where it is (0, 1) or (0, -1), a generic point otherwise"""
        ctx = self.ctx
        co = self.reduce({k: c for k, c in co.items() if not (iscon(c) and c == 0)})
        if all(k[0] == 'const' and iscon(c) for k, c in co.items()):
            r = (0, 1)
            for k, c in co.items(): r = cu.add(r, cu.mul(c, k[1]))
            return SPt(cu, ctx.const(r[0]), ctx.const(r[1]))
        if TORSION in co and iscon(co[TORSION]):
            p = self.open_co({k: c for k, c in co.items() if k != TORSION}, cu)
            return SPt(cu, -p.x, -p.y) if co[TORSION] % 2 else p
        key = self.cokey(co, cu)
        if key in self.opened: return self.opened[key]
        nco = {k: sub(0, c) for k, c in co.items()}
        nk = self.cokey(nco, cu)
        if nk in self.opened: return q_neg(self.opened[nk])
        n = f'o{len(self.opened)}'
        if ctx.ask('point', n + ' has x = 0'):
            y = 1 if ctx.ask('point', n + ' is the identity') else PP - 1
            p = SPt(cu, ctx.const(0), ctx.const(y)); self.rel.append(cadd(co, {TORSION: 1}) if y != 1 else co)
        else:
            p = self.S.point(cu, n); ctx.nonzero.add(('a', next(iter(p.x.f))[1])); self.gen.append((p, self.S.pts[-1][1], co))
        self.opened[key] = p
        return p
    def reduce(self, d): return reduce_co(d, self.rel)
    def rep(self, v):
        r = self.openrep.get(id(v))
        if r is None:
            p = self.open_co(v.co, v.kind.cu)
            a, _ = self.kinds.build(v.kind, self.S, p, f'r{len(self.openrep)}', v.b)
            r = self.openrep[id(v)] = (v, a)
        return r[1]
    def materialise(self, st, o):
        if self.openmode and self.opening and isinstance(o, PointV): return self.rep(o)
        return super().materialise(st, o)
    def pred_val(self, pr, co, cu):
        co = self.reduce(co)
        ns = list(co)
        if len(ns) == 2 and all(iscon(c) for c in co.values()) and sorted(co.values()) == [-1, 1] and TORSION not in co:
            a = self.open_co({ns[0]: 1}, cu); b = self.open_co({ns[1]: 1}, cu)
            if pr == 'eq':
                r = int((a.x - b.x).is_zero() and (a.y - b.y).is_zero())
                if r: self.rel.append(co)
                return r
            return int((a.x * b.y - a.y * b.x).is_zero())
        a = self.open_co(co, cu)
        return int(a.x.is_zero() and (pr != 'eq' or (a.y - self.ctx.const(1)).is_zero()))
    def abs_open(self, k, v, bs):
        qs = [self.fe_value(x)[0] for x in v.f]
        gen = [g for g in self.gen][-3:]
        cands = []
        try:
            p = self.kinds.numeric_affine(k, [self.S.eval(q.norm()) for q in qs])
        except (KeyError, Undecided, Incomplete, ValueError): p = None
        if p is not None:
            R = 2 if len(gen) > 1 else 4
            for cs in sorted(itertools.product(range(-R, R + 1), repeat=len(gen)), key=lambda c: (sum(abs(x) for x in c), [-x for x in c])):
                for tau in (0, 1):
                    r = (0, 1)
                    for (q, n, _), c in zip(gen, cs):
                        if c:
                            t = q.cu.mul(c, n)
                            if q.cu is not k.cu: t = phi(t) if k.cu is E2 else psi(t)
                            r = k.cu.add(r, t)
                    if tau: r = (-r[0] % PP, -r[1] % PP)
                    if r == p: cands.append((cs, tau)); break
                if cands: break
        for i in range(len(gen)):
            for c in (1, -1): cands.append((tuple(c if j == i else 0 for j in range(len(gen))), 0))
        cands.append(((0,) * len(gen), 0))
        for cs, tau in cands[:8]:
            e = self.pc.silent(self.ctx, lambda: q_combo(self.ctx, k.cu, [g[0] for g in gen], cs, tau))
            if e is None: continue
            ok = True
            for what, d, q in self.kinds.is_rep(k, self.ctx, v, e, self.fe_value):
                if what == 'z': ok = self.pc.silent(self.ctx, lambda: q.same(self.ctx.const(0)))
                else: ok = self.pc.silent(self.ctx, lambda: not q.is_zero())
                if not ok: break
            if ok:
                co = {TORSION: 1} if tau else {}
                for g, c in zip(gen, cs):
                    if c: co = cadd(co, g[2] if g[0].cu is k.cu else self.carry(g[2], k.cu), c)
                return PointV(k, co, bs)
        return None
    def rvalue(self, st, fr, rv, loc):
        r = super().rvalue(st, fr, rv, loc)
        if self.openmode and rv[0] == 'agg' and rv[1][0] == 'adt' and rv[1][1] in self.kinds.by_ty: r = self.reabs(rv[1][1], r)
        return r
    def reabs(self, t, v):
        k = self.kinds.by_ty[t]
        if k.name != 'mont' and isinstance(v, Agg) and any(isinstance(x, FEV) for x in v.f): return self.abs_kind(k, v) or v
        return v
    # ---- tabulated small quantities
    def enum(self, st, x):
        key = pkey(x.p)
        v = self.evars.get(key)
        if v is None:
            lo, hi = x.lo, x.hi
            a, b = bound(x.p, st.facts); lo, hi = max(lo, a), min(hi, b)
            for l, h in ((-8, 8), (-8, 7), (0, 15), (0, 7), (0, 3), (-16, 16)):
                if lo <= l and h <= hi and (l, h) != (lo, hi) and prove(('range', x.p, l, h), st.facts): lo, hi = l, h; break
            if hi - lo > 64: return None
            v = self.evars[key] = EVar(x, lo, hi, len(self.evars))
        return enum_mk(v, range(v.lo, v.hi + 1))
    def tabulated(self, v):
        """a quantity with few values that some comparison has already tabulated"""
        if v.__class__ is Sym and self.enum_on and self.evars and v.lo < 0:
            e = self.evars.get(pkey(v.p))
            if e is not None: return enum_mk(e, range(e.lo, e.hi + 1))
        return v
    def bname(self, c):
        """a 0/1 quantity that is a difference of wider variables gets a name of its own"""
        if c.__class__ is not Sym or c.lo < 0 or c.hi > 1 or all(VARS[v].lo >= 0 and VARS[v].hi <= 1 for v in pvars(c.p)): return c
        k = pkey(c.p)
        v = self.bnames.get(k)
        if v is None:
            w = self.bnames.get(pkey(P(sub(1, c))))
            if w is not None: return sub(1, w)
            v = self.bnames[k] = fresh(0, 1, f'bit{len(self.bnames)}', 'named')
            self.bdefs[next(iter(v.p))[0]] = c.p
            for x, y in ((oc(c), v), (oc(sub(1, c)), sub(1, v))):
                if x: note_all(y, x)
        return v
    def unname(self, p):
        for v in list(pvars(p)):
            if v in self.bdefs: p = psubst(p, v, self.bdefs[v])
        return p
    ENUMOPS = ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Shr', 'Shl', 'BitAnd', 'BitOr', 'BitXor', 'ShrUnchecked', 'ShlUnchecked')
    def binop(self, st, op, a, b, t, loc):
        if op in ('BitXor', 'BitAnd', 'BitOr') and LO(a) >= 0 and HI(a) <= 1 and LO(b) >= 0 and HI(b) <= 1: a, b = self.bname(a), self.bname(b)
        if not self.enum_on: return super().binop(st, op, a, b, t, loc)
        if op in self.ENUMOPS:
            def small(x): return x.__class__ is Sym and 2 <= x.hi - x.lo <= 300
            if (small(a) and (iscon(b) or b.__class__ is EnumV)) or (small(b) and (iscon(a) or a.__class__ is EnumV)):
                x = a if small(a) else b
                if x.hi - x.lo <= 64 and not (op in ('Shr', 'BitAnd') and x.lo >= 0 and x.hi > 31):
                    e = self.enum(st, x)
                    if e is not None:
                        if x is a: a = e
                        else: b = e
            if a.__class__ is EnumV or b.__class__ is EnumV: return self.enum_bin(st, op, a, b, t, loc)
        elif a.__class__ is EnumV or b.__class__ is EnumV: return self.enum_bin(st, op, a, b, t, loc)
        return super().binop(st, op, a, b, t, loc)
    def enum_bin(self, st, op, a, b, t, loc):
        f = enumable(lambda x, y: Exec.binop(self, st, op, x, y, t, loc))
        return f(a, b)
    # ---- merging
    def merge(self, c, a, b):
        if isinstance(c, Sym):
            c = self.bname(c)
            pa, pb = isinstance(a, (PointV, MontV)), isinstance(b, (PointV, MontV))
            if pa or pb:
                if pa and isinstance(b, Agg): b = self.abstract(a, b) or b
                elif pb and isinstance(a, Agg): a = self.abstract(b, a) or a
                r = self.merge_pts(c, a, b)
                if r is not None: return r
        return super().merge(c, a, b)
    def merge_pts(self, c, a, b):
        if isinstance(a, PointV) and isinstance(b, PointV) and a.kind is b.kind:
            co = {k: ite(c, a.co.get(k, 0), b.co.get(k, 0)) for k in list(a.co) + [k for k in b.co if k not in a.co]}
            bs = tuple(self.fc.widen([(min(x[0], y[0]), max(x[1], y[1])) for x, y in zip(p, q)]) for p, q in zip(a.b, b.b))
            return PointV(a.kind, co, bs)
        if isinstance(a, MontV) and isinstance(b, MontV) and a.level == b.level and (a.base == b.base or a.base is None or b.base is None):
            bs = tuple(self.fc.widen([(min(x[0], y[0]), max(x[1], y[1])) for x, y in zip(p, q)]) for p, q in zip(a.b, b.b))
            return MontV(a.level, ite(c, a.idx, b.idx), a.base or b.base, bs)
        return None
    def abstract(self, like, v):
        return self.abs_kind(like.kind if isinstance(like, PointV) else self.kinds.by_name['mont'], v, like)
    def abs_kind(self, k, v, like=None):
        """Agg of concrete coordinates (or a ladder start) -> abstract value, None if not recognised"""
        if not isinstance(v, Agg): return None
        try: qs = [self.fe_value(x) for x in v.f]
        except Unsupported: return None
        bs = tuple(self.fc.widen(b) for _, b in qs)
        if k.name == 'mont':
            d = dict(zip(k.fields, [q for q, _ in qs]))
            U, W = d['U'], d['W']
            if not W.f and W.c == 1 and U.f and len(U.f) == 1 and U.c == 1: return MontV(0, 1, ('u', tuple(U.f.items())), bs)
            if not W.f and W.c == 0 and not U.f and U.c == 1: return MontV(0, 0, like.base if like is not None else None, bs)
            return None
        if any(q.f for q, _ in qs): return self.abs_open(k, v, bs) if self.openmode else None
        p = self.kinds.numeric_affine(k, [q.c for q, _ in qs])
        if p is None: return None
        return PointV(k, {} if p == (0, 1) else {TORSION: 1} if p == (0, PP - 1) else {('const', p): 1}, bs)
    # ---- calls
    def call_inst(self, st, idx, args, loc=''):
        if self.enum_on and self.bulky(st, args):
            # integer code (recoding of a scalar): executed on the limbs, not by tabulation
            self.enum_on = False
            try: return self.call_inst2(st, idx, args, loc)
            finally: self.enum_on = True
        return self.call_inst2(st, idx, args, loc)
    def bulky(self, st, args):
        n = 0
        for a in args:
            v = self.peek(st, a)
            if v is None or self.has_opq(v): return False
            n += self.count(v)
        return n > 4
    def count(self, v):
        if isinstance(v, Agg): return sum(self.count(x) for x in v.f)
        return isinstance(v, Sym)
    def call_inst2(self, st, idx, args, loc=''):
        if self.openmode and self.prog.insts[idx].get('body'):
            ls = self.prog.insts[idx]['body']['locals']; args = list(args)
            for i, a in enumerate(args):
                if i + 1 >= len(ls): break
                mode, t = self.ty.strip(ls[i + 1])
                if t not in self.kinds.by_ty: continue
                v = self.peek(st, a)
                if not isinstance(v, Agg): continue
                w = self.reabs(t, v)
                if w is v: continue
                if mode == 'val': args[i] = w
                elif isinstance(a, Ref): self.store(st, a, w)
        sig = self.pc.psig(idx)
        if sig:
            ps, rs = sig
            opq = False; mont = False
            for a, (mode, t, s) in zip(args, ps):
                v = a if mode == 'val' else self.load(st, a)
                if self.has_opq(v): opq = True
                elif s[0] == 'pt' and s[1].name == 'mont' and isinstance(v, Agg) and any(isinstance(x, FEV) for x in v.f): mont = True
            if mont and self.stack:
                # the ladder's starting values become abstract when they are first passed on
                args = list(args)
                for i, (a, (mode, t, s)) in enumerate(zip(args, ps)):
                    if s[0] == 'pt' and s[1].name == 'mont':
                        v = a if mode == 'val' else self.load(st, a)
                        r = self.abs_kind(s[1], v) if isinstance(v, Agg) else None
                        if r is not None:
                            if mode == 'val': args[i] = r
                            else: self.store(st, a, r)
                            opq = True
            if opq:
                snap = (dict(st.mem), st.facts, dict(st.dom), len(self.obls), list(self.stack))
                old, self.opening = self.opening, 0
                try: return super().call_inst(st, idx, args, loc)
                except NeedRep as e:
                    if not isinstance(e.o, (PointV, MontV)): raise
                    st.mem, st.facts, st.dom = dict(snap[0]), snap[1], snap[2]; del self.obls[snap[3]:]; self.stack[:] = snap[4]
                    r = self.apply_pt(st, idx, args, ps, rs)
                    if r is None:
                        self.fails.append((self.prog.insts[idx]['name'], next((w for (i, d), w in self.pc.why.items() if i == idx), '')))
                        if self.openmode and isinstance(e.o, PointV):
                            st.mem, st.facts, st.dom = dict(snap[0]), snap[1], snap[2]
                            self.opening = 1
                            return super().call_inst(st, idx, args, loc)
                        raise
                    return r
                finally: self.opening = old
        elif any(isinstance(self.peek(st, a), MontV) for a in args):
            # a function of a ladder value that is no ladder step (to_affine): run on its coordinates
            snap = (dict(st.mem), st.facts, dict(st.dom), len(self.obls), list(self.stack))
            try: return super().call_inst(st, idx, args, loc)
            except NeedRep as e:
                if not isinstance(e.o, MontV): raise
                st.mem, st.facts, st.dom = dict(snap[0]), snap[1], snap[2]; del self.obls[snap[3]:]; self.stack[:] = snap[4]
                args = list(args)
                for i, a in enumerate(args):
                    v = self.peek(st, a)
                    if isinstance(v, MontV):
                        if isinstance(a, Ref):
                            if self.prog.tys[self.prog.insts[idx]['body']['locals'][1 + i]].get('mut'): raise
                            args[i] = Ref(self.new_cell(st, self.coords(v)))
                        else: args[i] = self.coords(v)
                return super().call_inst(st, idx, args, loc)
        return super().call_inst(st, idx, args, loc)
    def peek(self, st, a):
        try: return self.load(st, a) if isinstance(a, Ref) else a
        except NeedRep: return None
    def coords(self, m):
        """the coordinates (atoms) of the ladder value R(level, idx)"""
        for v, at in self.montco:
            if v.level == m.level and v.base == m.base and P(v.idx) == P(m.idx): break
        else:
            n = len(self.montco)
            at = dict(U=self.ctx.var(f'RU{n}'), W=self.ctx.var(f'RW{n}'))
            self.montco.append((m, at))
        return Agg([FEV(at[f], b) for f, b in zip(self.kinds.by_name['mont'].fields, m.b)])
    def has_opq(self, v):
        if isinstance(v, (PointV, MontV)): return True
        if isinstance(v, Ite): return self.has_opq(v.a) or self.has_opq(v.b)
        return isinstance(v, Agg) and any(self.has_opq(x) for x in v.f)

    def apply_pt(self, st, idx, args, ps, rs):
        leaves = []          # per arg: list of (shape, value)
        pts = []; monts = []; fes = []
        splits = []
        vals = []
        for a, (mode, t, s) in zip(args, ps):
            v = a if mode == 'val' else self.load(st, a)
            out = []
            try: self.pc.flatten(s, v, out)
            except Unsupported: return None
            vals.append(out)
        base = None
        for out in vals:
            for s, v in out:
                if isinstance(v, MontV) and v.base is not None: base = v
        descr = []
        for ai, out in enumerate(vals):
            ds = []
            for li, (s, v) in enumerate(out):
                if isinstance(v, Ite): v = self.force(st, v)
                if s[0] == 'pt':
                    if isinstance(v, Agg): v = self.abs_kind(s[1], v, base)
                    if not isinstance(v, (PointV, MontV)): return None
                    if isinstance(v, MontV):
                        if v.base is None and base is not None: v = MontV(v.level, v.idx, base.base, v.b)
                        monts.append(v)
                    else: pts.append(v)
                    ds.append(('pt', s[1].name, v.b))
                elif s[0] == 'fe':
                    q, b = self.fe_value(v)
                    if isinstance(v, FEV): ds.append(('fev', self.fc.widen(b))); fes.append(q)
                    else: ds.append(('fec', tuple(self.ty.flat(v))))
                elif s[0] in ('int', 'choice'):
                    c = v.f[0] if s[0] == 'choice' else v
                    c = self.resolve(c) if c.__class__ is Sym else c
                    c = self.bname(c)
                    if iscon(c): ds.append((s[0], c))
                    else:
                        if c.__class__ is not EnumV and c.hi - c.lo > 1:
                            c = self.enum(st, c)
                            if c is None: return None
                        splits.append((ai, li, s[0], c)); ds.append(None)
            descr.append(ds)
        if len(splits) > 2: return None
        name = self.prog.insts[idx]['name']
        def run(descr):
            con = self.pc.get(idx, tuple(tuple(d) for d in descr))
            if con is None: return None
            return self.outputs(con, pts, monts, fes)
        if not splits: res = run(descr)
        else:
            # all values of the symbolic small arguments
            def rec(k):
                if k == len(splits): return run(descr)
                ai, li, sk, c = splits[k]
                if c.__class__ is EnumV: vs = sorted(set(c.tab[i - c.var.lo] for i in st.edom(c.var)))
                else: vs = list(range(c.lo, c.hi + 1))
                rs_ = []
                for x in vs:
                    descr[ai][li] = (sk, x)
                    r = rec(k + 1)
                    if r is None: return None
                    rs_.append((x, r))
                r = rs_[-1][1]
                for x, o in reversed(rs_[:-1]):
                    cond = eq0(sub(c, x)) if len(vs) > 2 or c.__class__ is EnumV else sub(1, sub(c, vs[0]))
                    r = [self.merge(cond, y, z) for y, z in zip(o, r)]
                return r
            res = rec(0)
        if res is None: return None
        self.used[name] = self.used.get(name, 0) + 1
        it = iter(res)
        ret = self.pc.unflatten(rs, it) if rs[0] != 'agg' or rs[2] else Agg([])
        for a, (mode, t, s) in zip(args, ps):
            if mode == 'mut': self.store(st, a, self.pc.unflatten(s, it))
        return [(1, st, ret)]
    def outputs(self, con, pts, monts, fes):
        res = []
        for o in con['outs']:
            if o[0] == 'pt':
                k = self.kinds.by_name[o[1]]
                co = {}
                for p, c in zip(pts, o[2]):
                    if not c: continue
                    pc = p.co
                    if p.kind.cu is not k.cu: pc = self.carry(pc, k.cu)
                    co = cadd(co, pc, c)
                if o[3]: co = cadd(co, {TORSION: 1})
                res.append(PointV(k, co, o[4]))
            elif o[0] == 'mont':
                if o[2][0] == 'same':
                    m = monts[o[2][1]]; res.append(MontV(m.level, m.idx, m.base, o[3]))
                elif o[2][0] == 'dbl':
                    m = monts[o[2][1]]; res.append(MontV(m.level + 1, mul(2, m.idx), m.base, o[3]))
                else:
                    m, n = monts
                    d = sub(m.idx, n.idx)
                    base = m.base or n.base
                    if m.level != n.level or m.base != n.base or base is None or ('u', tuple(fes[0].f.items())) != base or fes[0].c != 1: return None
                    dd = mul(d, d)
                    if not (iscon(dd) and dd == 1): return None
                    res.append(MontV(m.level + 1, add(m.idx, n.idx), base, o[3]))
            elif o[0] == 'const': res.append(o[1])
            elif o[0] == 'pred':
                if o[2] == 2: co = cadd(pts[0].co, pts[1].co, -1)
                else: co = dict(pts[0].co)
                if not co: res.append(1); continue
                key = (o[1], frozenset((k, pkey(P(c))) for k, c in co.items()))
                for vid, (pk, pr, _) in self.preds.items():
                    if pk == key: v = Sym(pvar(VARS[vid]), 0, 1); break
                else:
                    v = fresh(0, 1, 'pred', 'pred'); self.preds[next(iter(v.p))[0]] = (key, o[1], co)
                    if self.openmode: self.tags[next(iter(v.p))[0]] = lambda pr=o[1], co=co, cu=pts[0].kind.cu: self.pred_val(pr, co, cu)
                res.append(v)
        # choices are wrapped
        return res
    def carry(self, co, cu):
        """coefficients carried over by phi (E1 -> E2) or its dual; dual(phi(P)) = 4P"""
        r = {}
        for n, c in co.items():
            if cu is E2:
                if n == TORSION: continue                 # phi kills (0,-1)
                r[('phi', n)] = c
            elif n[0] == 'phi': r = cadd(r, {n[1]: mul(4, c)})
            elif n == TORSION: continue
            else: r[('dual', n)] = c
        return r
