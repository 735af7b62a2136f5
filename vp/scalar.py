"""Scalars: contracts of the functions on the limbs of a scalar, proved at limb level,
and the executor over abstract scalars (values of Z/l)."""
from base import *
from fq import Q, Ctx, Undecided, Incomplete

FULL = 2**448 - 1
CLASSES = {'canonical': ELL - 1, 'any': FULL}

def limbs_of(ty, v): return ty.flat(v)

class ScalarV(Opq):
    def __init__(self, q, cls): self.q, self.cls = q, cls
    def __repr__(self): return f'Scalar[{self.q!r:.100}:{self.cls}]'

class ScalarContracts:
    def __init__(self, prog, ty, backend, log):
        self.prog, self.ty, self.backend, self.log = prog, ty, backend, log
        self.memo = {}
        self.R = random.Random(11)
        self.lw = 32
        lt = ty.leaf_types(ty.scalar)
        self.nl = len(lt); self.lw = 448 // self.nl
    def make(self, n):
        """concrete scalar value"""
        m = (1 << self.lw) - 1
        return self.ty.build(self.ty.scalar, iter([(n >> (self.lw * i)) & m for i in range(self.nl)]))
    def symbolic(self, st, name, cls='any', lo=0):
        ls = [fresh(0, 2**self.lw - 1, f'{name}{i}') for i in range(self.nl)]
        hi = CLASSES[cls] if isinstance(cls, str) else cls
        if hi != FULL or lo:
            named_sum([VARS[list(x.p)[0][0]] for x in ls], self.lw, lo, hi, name)
            top = ls[-1]
            if hi != FULL: st.facts = st.facts.assume(top.p, 0, hi >> (self.lw * (self.nl - 1)))
        return self.ty.build(self.ty.scalar, iter(ls)), lv(ls, self.lw)
    def value(self, v): return lv(self.ty.flat(v), self.lw)
    def get(self, idx, descr):
        key = (idx, descr)
        if key not in self.memo:
            t0 = time.time()
            n0, nf = self.log.n, len(self.log.failed)
            with VarScope(): r = self.infer(idx, descr)
            name = self.prog.insts[idx]['name']
            if r is None or len(self.log.failed) > nf:
                self.log.attempts += self.log.failed[nf:] or [(f'{self.backend}:{name}', 'result is a fixed polynomial of the arguments mod l', '')]
                del self.log.failed[nf:]; self.log.n = n0
                r = None
            if r is not None:
                self.log.contracts.setdefault(f'{self.backend}: {name}', []).append(dict(result=r['text'], bounds=[d[2] for d in descr if d[0] == 'sc'], time=round(time.time() - t0, 2), obligations=r['n']))
            self.memo[key] = r
        return self.memo[key]
    def args(self, ex, st, descr, gen):
        args = []; vals = []
        for i, d in enumerate(descr):
            if d[0] == 'sc':
                v, n = gen(d[2], f'a{i}_'); vals.append(n)
            else: v = d[2]
            args.append(v if d[1] == 'val' else Ref(ex.new_cell(st, v)))
        return args, vals
    def outputs(self, ex, idx, descr, args, st, ret):
        rt = self.prog.insts[idx]['body']['locals'][0]
        out = []
        if rt == self.ty.scalar: out.append(ret)
        for d, a in zip(descr, args):
            if d[1] == 'mut': out.append(ex.load(st, a))
        return out
    def infer(self, idx, descr):
        inst = self.prog.insts[idx]; where = f"{self.backend}:{inst['name']}"
        m = ELL; R = self.R
        nin = sum(d[0] == 'sc' for d in descr)
        monos = [()] + [(i,) for i in range(nin)] + [(i, j) for i in range(nin) for j in range(i, nin)]
        def cgen(cls, nm):
            hi = CLASSES[cls]
            n = R.choice((0, 1, hi, hi - 1, ELL - 1, R.randint(0, hi))) if R.random() < .4 else R.randint(0, hi)
            return self.make(n), n
        rows = []
        for k in range(len(monos) + 4):
            ex = Exec(self.prog); st = State()
            args, vals = self.args(ex, st, descr, cgen)
            outs = ex.call_inst(st, idx, args)
            if len(outs) != 1 or any(not o.ok for o in ex.obls):
                self.log.obl(where, 'no panic', False, f'panics on {vals}'); return None
            rows.append((vals, [self.value(v) for v in self.outputs(ex, idx, descr, args, outs[0][1], outs[0][2])]))
        nout = len(rows[0][1])
        polys = []
        for oi in range(nout):
            A = []
            for vals, res in rows:
                row = []
                for mm in monos:
                    t = 1
                    for v in mm: t = t * vals[v] % m
                    row.append(t)
                A.append(row + [res[oi] % m])
            sol = solve_mod(A, len(monos), m)
            if sol is None: return None
            polys.append({mm: c for mm, c in zip(monos, sol) if c})
        ex = Exec(self.prog); st = State()
        args, vals = self.args(ex, st, descr, lambda cls, nm: self.symbolic(st, nm, cls))
        outs = ex.call_inst(st, idx, args)
        n0 = self.log.n
        self.log.absorb(ex, where)
        if len(outs) != 1: self.log.obl(where, 'single outcome', False); return None
        st2 = outs[0][1]
        clss = []; txt = []
        for v, poly in zip(self.outputs(ex, idx, descr, args, st2, outs[0][2]), polys):
            V = self.value(v)
            # scale the congruence by the power of two that makes its coefficients smallest
            def size(s): return sum(min(c * s % m, m - c * s % m).bit_length() for c in poly.values()) + min(s % m, m - s % m).bit_length() // 2
            s = min((1, 2, 4, 8, 2**448, 2**896, 2**32), key=size)
            E = mul(s, V)
            for mm, c in poly.items():
                c = c * s % m
                t = c if c <= m // 2 else c - m
                for i in mm: t = mul(t, vals[i])
                E = sub(E, t)
            ok = prove(('zero', P(E), m), st2.facts)
            def sh(c):
                c = c * s % m
                return str(c if c <= m // 2 else c - m)
            txt.append(f"{s if s < 100 else '2^%d' % (s.bit_length() - 1)}*out = " + (' + '.join(sh(c)[:24] + ''.join(f'*in{i}' for i in mm) for mm, c in poly.items()) or '0') + ' mod l')
            self.log.obl(where, 'congruence ' + txt[-1], ok)
            fits = all(LO(x) >= 0 and HI(x) < 1 << self.lw for x in self.ty.flat(v))
            self.log.obl(where, 'limbs are machine integers', fits)
            can = bool(prove(('range', P(V), 0, m - 1), st2.facts))
            clss.append('canonical' if can else 'any')
            if can: self.log.obl(where, 'result < l', True); txt[-1] += ', 0 <= out < l'
        return dict(polys=polys, cls=clss, text='; '.join(txt), n=self.log.n - n0)

class SEx(Exec):
    def __init__(self, prog, ty, sc, ctx):
        super().__init__(prog)
        self.ty, self.sc, self.ctx = ty, sc, ctx
        self.reg = []               # (poly, atom q, poly)
    def sig(self, idx):
        inst = self.prog.insts[idx]
        c = inst.get('_ssig')
        if c is None:
            c = False
            if inst.get('body') and inst['crate'] in ('ed448_goldilocks', 'vharness') and not CLOSURE(inst['name']):
                b = inst['body']
                ps = [self.ty.strip(t) for t in b['locals'][1:1 + b['argc']]]
                n = sum(t == self.ty.scalar for _, t in ps)
                ok = n and all(t == self.ty.scalar or (self.prog.intinfo(t) and mode == 'val') for mode, t in ps)
                rt = b['locals'][0]; R = self.prog.tys[rt]
                ok = ok and (rt == self.ty.scalar or R['k'] == 'tuple' and not R['f'] and any(mode == 'mut' and t == self.ty.scalar for mode, t in ps))
                if ok: c = ps
            inst['_ssig'] = c
        return c
    def abstract(self, st, v):
        if isinstance(v, Ite): v = self.force(st, v)
        if isinstance(v, ScalarV): return v
        n = self.sc.value(v)
        if iscon(n): return ScalarV(self.ctx.const(n), 'canonical' if n < ELL else 'any')
        for p, s in self.reg:
            if p == n.p: return s
        lo, hi = bound(n.p, st.facts)
        cls = 'canonical' if hi < ELL or prove(('range', n.p, 0, ELL - 1), st.facts) else 'any'
        s = ScalarV(self.ctx.var(f'n{len(self.reg)}'), cls)
        self.reg.append((n.p, s))
        return s
    def call_inst(self, st, idx, args, loc=''):
        ps = self.sig(idx)
        if ps and self.prog.insts[idx]['crate'] == 'ed448_goldilocks':
            vs = [(a if mode == 'val' else self.load(st, a)) if t == self.ty.scalar else None for a, (mode, t) in zip(args, ps)]
            def symb(v): return isinstance(v, (ScalarV, Ite)) or isinstance(v, Agg) and any(isinstance(x, Sym) for x in self.ty.flat(v))
            if any(v is not None and symb(v) for v in vs):
                a2 = []
                snap = (dict(st.mem), st.facts, len(self.obls), list(self.stack))
                for a, v, (mode, t) in zip(args, vs, ps):
                    if v is not None and symb(v):
                        s = self.abstract(st, v)
                        if mode == 'val': a = s
                        elif mode == 'mut': self.store(st, a, s)
                        else: a = Ref(self.new_cell(st, s, 'ro'))
                    a2.append(a)
                try: return super().call_inst(st, idx, a2, loc)
                except NeedRep as e:
                    st.mem, st.facts = dict(snap[0]), snap[1]; del self.obls[snap[2]:]; self.stack[:] = snap[3]
                    return self.apply(st, idx, args, ps, e)
        return super().call_inst(st, idx, args, loc)
    def apply(self, st, idx, args, ps, need=None):
        descr = []; vals = []; writes = []
        for a, (mode, t) in zip(args, ps):
            v = a if mode == 'val' else self.load(st, a)
            if t == self.ty.scalar:
                s = self.abstract(st, v)
                descr.append(('sc', mode, s.cls)); vals.append(s.q)
                if mode == 'mut': writes.append(a)
            else:
                if not iscon(v): raise Unsupported('symbolic argument of a scalar function')
                descr.append(('const', mode, v))
        c = self.sc.get(idx, tuple(descr))
        name = self.prog.insts[idx]['name']
        if c is None and need is not None: raise need
        if c is None: raise Unsupported(f"no contract could be proved for {name} on {[d[2] for d in descr]}")
        self.used[name] = self.used.get(name, 0) + 1
        res = []
        for poly, cls in zip(c['polys'], c['cls']):
            q = self.ctx.const(0)
            for mm, co in poly.items():
                t = self.ctx.const(co)
                for i in mm: t = t * vals[i]
                q = q + t if q.c else t
            res.append(ScalarV(q, cls))
        ret = res.pop(0) if self.prog.insts[idx]['body']['locals'][0] == self.ty.scalar else Agg([])
        for w in writes: self.store(st, w, res.pop(0))
        return [(1, st, ret)]
    def concretise(self, q):
        """a linear Q over registered integers -> integer polynomial (mod l)"""
        p = q.norm().expand()
        r = 0
        for t, c in p.items():
            if not t: r = add(r, c); continue
            (k, e), = t
            if e != 1: raise Incomplete('nonlinear')
            n = next(pp for pp, s in self.reg if s.q.f == {('a', k): 1})
            r = add(r, mul(c if c <= ELL // 2 else c - ELL, mk(n)))
        return r
