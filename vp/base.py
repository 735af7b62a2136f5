"""Shared pieces: type classification, the limb-level contracts of field functions
(inferred from the code, then proved), and the executor that uses them."""
import random, time, os, sys
sys.setrecursionlimit(40000)
from sym import *
import sym
from mir import Prog, Unsupported
from exec import *
import exec as X
import fq

PP = 2**448 - 2**224 - 1
ELL = 2**446 - 0x8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d

class VarScope:
    """a fresh table of integer variables (nested proofs must not see each other's)"""
    def __enter__(self):
        self.s = (list(VARS), dict(sym._SPLITS), dict(sym._CMPS), dict(GATES), sym.DEADLINE, dict(sym._BITS), sym.EQHOOK[0])
        VARS.clear(); sym._SPLITS.clear(); sym._CMPS.clear(); GATES.clear(); sym._BITS.clear(); sym.DEADLINE = None; sym.EQHOOK[0] = None
    def __exit__(self, *a):
        VARS[:] = self.s[0]
        for d, o in ((sym._SPLITS, 1), (sym._CMPS, 2), (GATES, 3), (sym._BITS, 5)):
            d.clear(); d.update(self.s[o])
        sym.DEADLINE = self.s[4]; sym.EQHOOK[0] = self.s[6]

class Log:
    """obligations discharged / failed, contracts, trusted functions"""
    def __init__(self):
        self.n = 0; self.failed = []; self.contracts = {}; self.trusted = {}; self.inlined = {}; self.lemmas = {}; self.attempts = []; self.bounded = []
    def obl(self, where, what, ok, detail=''):
        self.n += 1
        if not ok: self.failed.append((where, what, str(detail)[:600]))
        return ok
    def absorb(self, ex, where=''):
        for o in ex.obls: self.obl(where or o.fn, f'{o.kind} in {o.fn} at {o.loc}', o.ok, o.detail)
        for k, v in ex.trusted.items(): self.trusted[k] = self.trusted.get(k, 0) + v
        for k, v in ex.inlined.items(): self.inlined[k] = self.inlined.get(k, 0) + v
    def merge(self, o):
        self.n += o.n; self.failed += o.failed; self.attempts += o.attempts
        for a, b in ((self.contracts, o.contracts), (self.lemmas, o.lemmas)): a.update(b)
        for a, b in ((self.trusted, o.trusted), (self.inlined, o.inlined)):
            for k, v in b.items(): a[k] = a.get(k, 0) + v

def lv(items, w):
    r = 0
    for i, e in enumerate(items): r = add(r, mul(e, 1 << (w * i)))
    return r

class Types:
    def __init__(self, prog):
        self.prog = prog
        T = prog.tys
        def ret(root):
            i = prog.root('vharness::' + root)
            return prog.insts[i]['body']['locals'][0] if i is not None else None
        def arg(root, n=1):
            i = prog.root('vharness::' + root)
            return prog.insts[i]['body']['locals'][n]
        self.edw = ret('e_identity')
        self.fe = T[self.edw]['v'][0]['f'][0][1]
        self.scalar = ret('s_zero')
        self.choice = ret('s_ct_eq')
        self.decaf = ret('d_identity')
        self.mont = ret('m_mul')
        self.cdecaf = ret('d_compress')
        self.cedw = ret('e_compress')
        self.nl = len(self.leaf_types(self.fe))
        self.w = 448 // self.nl
        self.lw = prog.intinfo(self.leaf_types(self.fe)[0])[0]
    def leaf_types(self, t):
        T = self.prog.tys[t]
        if self.prog.intinfo(t): return [t]
        if T['k'] == 'array': return self.leaf_types(T['e']) * T['n']
        if T['k'] == 'tuple': return [x for f in T['f'] for x in self.leaf_types(f)]
        if T['k'] == 'adt' and len(T['v']) == 1: return [x for f in T['v'][0]['f'] for x in self.leaf_types(f[1])]
        raise Unsupported('leaves of ' + T['s'])
    def build(self, t, it):
        """value of type t from an iterator of leaves"""
        T = self.prog.tys[t]
        if self.prog.intinfo(t): return next(it)
        if T['k'] == 'array': return Agg([self.build(T['e'], it) for _ in range(T['n'])])
        if T['k'] == 'tuple': return Agg([self.build(f, it) for f in T['f']])
        return Agg([self.build(f[1], it) for f in T['v'][0]['f']])
    def flat(self, v):
        if isinstance(v, Agg): return [x for y in v.f for x in self.flat(y)]
        return [v]
    def strip(self, t):
        """(mode, type): mode val/ref/mut"""
        T = self.prog.tys[t]
        if T['k'] == 'ref': return ('mut' if T.get('mut') else 'ref'), T['e']
        return 'val', t
    def is_bytes(self, t, n=None):
        T = self.prog.tys[t]
        return T['k'] == 'array' and self.prog.intinfo(T['e']) == (8, False) and (n is None or T['n'] == n)

def in_class(bs, lo, hi): return all(a >= lo and b <= hi for a, b in bs)

class FieldContracts:
    """contracts of the functions that touch the limbs of a field element:
    inferred by evaluation, then proved for all inputs within the stated limb bounds"""
    def __init__(self, prog, ty, backend, log):
        self.prog, self.ty, self.backend, self.log = prog, ty, backend, log
        self.memo = {}
        if ty.nl == 8: self.classes = [('tight', (0, 2**56)), ('loose', (0, 3 * 2**56))]
        else: self.classes = [('tight', (0, 2**28 + 2**9))]
        self.random = random.Random(7)
    def widen(self, bs):
        for n, (lo, hi) in self.classes:
            if in_class(bs, lo, hi): return ((lo, hi),) * self.ty.nl
        return tuple(bs)
    def tight(self): return (self.classes[0][1],) * self.ty.nl

    def get(self, idx, descr):
        key = (idx, descr)
        if key not in self.memo:
            t0 = time.time()
            n0, nf = self.log.n, len(self.log.failed)
            with VarScope():
                r = self.infer(idx, descr)
            name = self.prog.insts[idx]['name']
            if r is None or len(self.log.failed) > nf:
                # no contract: the caller is tried instead; kept for the report if that fails too
                self.log.attempts += self.log.failed[nf:] or [(f'{self.backend}:{name}', 'result is a fixed polynomial of the arguments mod p', '')]
                del self.log.failed[nf:]; self.log.n = n0
                r = None
            if r is not None:
                self.log.contracts.setdefault(f'{self.backend}: {name}', []).append(dict(result=r['text'], bounds=[self.bshow(b) for b in r['inb']], time=round(time.time() - t0, 2), obligations=r['n']))
            self.memo[key] = r
        return self.memo[key]
    def bshow(self, b):
        for n, (lo, hi) in self.classes:
            if b == ((lo, hi),) * self.ty.nl: return n
        return 'limbs<=' + str(max(h for _, h in b).bit_length()) + 'bit'

    def make_args(self, ex, st, descr, gen):
        args = []; vals = []
        for d in descr:
            k, mode = d[0], d[1]
            if k == 'fe':
                ls = [gen(lo, hi) for lo, hi in d[2]]
                v = self.ty.build(self.ty.fe, iter(ls)); vals.append(lv(ls, self.ty.w))
            elif k == 'bytes':
                ls = [gen(0, 255) for _ in range(56)]
                v = Agg(ls); vals.append(lv(ls, 8))
            elif k == 'const': v = d[2]
            args.append(v if mode == 'val' else Ref(ex.new_cell(st, v)))
        return args, vals

    def outputs(self, ex, idx, descr, args, st, ret):
        """[(kind, value)] of the results: return value and written &mut field elements"""
        body = self.prog.insts[idx]['body']
        rt = body['locals'][0]
        out = []
        def add_out(t, v):
            T = self.prog.tys[t]
            if t == self.ty.fe: out.append(('fe', v))
            elif self.ty.is_bytes(t, 56): out.append(('bytes', v))
            elif T['k'] == 'tuple' and not T['f']: pass
            else: raise Unsupported('contract result type ' + T['s'])
        add_out(rt, ret)
        for d, a in zip(descr, args):
            if d[1] == 'mut':
                if d[0] in ('fe', 'bytes'): out.append((d[0], ex.load(st, a)))
                else: raise Unsupported('mutable argument')
        return out

    def infer(self, idx, descr):
        inst = self.prog.insts[idx]
        name = inst['name']; where = f'{self.backend}:{name}'
        m = PP; R = self.random
        nin = sum(d[0] in ('fe', 'bytes') for d in descr)
        monos = [()] + [(i,) for i in range(nin)] + [(i, j) for i in range(nin) for j in range(i, nin)]
        rows = []
        for k in range(len(monos) + 2):
            ex = Exec(self.prog); st = State()
            args, vals = self.make_args(ex, st, descr, lambda lo, hi: R.randint(lo, hi) if R.random() < .8 else R.choice((lo, hi)))
            try: outs = ex.call_inst(st, idx, args)
            except Unsupported as e: raise
            if len(outs) != 1 or any(not o.ok for o in ex.obls):
                self.log.obl(where, 'no panic on inputs within the limb bounds', False, f'panics on {args!r:.400}'); return None
            o = self.outputs(ex, idx, descr, args, outs[0][1], outs[0][2])
            rows.append((vals, [lv(self.ty.flat(v), self.ty.w if kk == 'fe' else 8) for kk, v in o]))
        kinds = [kk for kk, _ in o]
        polys = []
        for oi in range(len(kinds)):
            A = []
            for vals, res in rows:
                row = []
                for mm in monos:
                    t = 1
                    for v in mm: t = t * vals[v] % m
                    row.append(t)
                A.append(row + [res[oi] % m])
            sol = solve_mod(A, len(monos), m)
            if sol is None: return None
            polys.append({mm: c for mm, c in zip(monos, sol) if c})
        # proof
        ex = Exec(self.prog); st = State()
        cnt = [0]
        def gen(lo, hi):
            if lo == hi: return lo
            cnt[0] += 1
            return fresh(lo, hi, f'l{cnt[0]}')
        args, vals = self.make_args(ex, st, descr, gen)
        outs = ex.call_inst(st, idx, args)
        n0 = self.log.n
        self.log.absorb(ex, where)
        if len(outs) != 1: self.log.obl(where, 'single outcome', False); return None
        st2 = outs[0][1]
        o = self.outputs(ex, idx, descr, args, st2, outs[0][2])
        bounds = []
        txt = []
        for (kk, v), poly in zip(o, polys):
            ls = self.ty.flat(v)
            V = lv(ls, self.ty.w if kk == 'fe' else 8)
            E = 0
            for mm, c in poly.items():
                t = c if c <= m // 2 else c - m
                for i in mm: t = mul(t, vals[i])
                E = add(E, t)
            ok = prove(('zero', P(sub(V, E)), m), st2.facts)
            txt.append(('fe' if kk == 'fe' else 'bytes') + ' = ' + (' + '.join((f'{c if c <= m // 2 else c - m}' if abs(c) < 1 << 40 or m - c < 1 << 40 else 'C') + ''.join(f'*in{i}' for i in mm) for mm, c in poly.items()) or '0') + ' mod p')
            if not ok and os.environ.get("CDBG"): print([str(P(x)) for x in ls][:9])
            self.log.obl(where, 'congruence mod p: ' + txt[-1], ok)
            if kk == 'fe':
                bs = []
                for x in ls:
                    lo, hi = LO(x), HI(x)
                    tl, th = self.classes[0][1]
                    if not (lo >= tl and hi <= th):
                        if prove(('range', P(x), tl, th), st2.facts): lo, hi = max(lo, tl), min(hi, th)
                    bs.append((lo, hi))
                self.log.obl(where, 'limbs are machine integers', all(a >= 0 and b < 1 << self.ty.lw for a, b in bs))
                bounds.append(self.widen(bs))
            else:
                ok = all(LO(x) >= 0 and HI(x) <= 255 for x in ls) and prove(('range', P(V), 0, m - 1), st2.facts)
                self.log.obl(where, 'encoding is canonical (< p)', ok)
                if not ok: return None
                bounds.append(None)
        return dict(kinds=kinds, polys=polys, bounds=bounds, text='; '.join(txt), n=self.log.n - n0, inb=[d[2] for d in descr if d[0] == 'fe'])

def solve_mod(A, n, m):
    """solve the overdetermined linear system rows [a_1..a_n | b] mod m; None if inconsistent or not unique"""
    A = [r[:] for r in A]
    piv = []
    r = 0
    for c in range(n):
        k = next((i for i in range(r, len(A)) if A[i][c] % m), None)
        if k is None: piv.append(None); continue
        A[r], A[k] = A[k], A[r]
        iv = pow(A[r][c], -1, m)
        A[r] = [x * iv % m for x in A[r]]
        for i in range(len(A)):
            if i != r and A[i][c]:
                f = A[i][c]
                A[i] = [(x - f * y) % m for x, y in zip(A[i], A[r])]
        piv.append(r); r += 1
    if any(row[n] % m for row in A[r:]): return None
    if None in piv: return None
    return [A[p][n] for p in piv]
