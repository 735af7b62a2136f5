"""The integer primitives of the dependency `subtle`, proved instead of assumed.

The engine uses contracts for <uN as ConstantTimeEq>::ct_eq, <uN as ConditionallySelectable>::conditional_select
and <[u8] as ConstantTimeEq>::ct_eq.  Here the MIR bodies of those functions, as compiled for this crate, are
verified against the contracts: the loop-free integer bodies by translation to Z3 bit vectors (all inputs),
the slice body by the engine for the lengths that occur."""
import re, time
import z3
from goals import *
import models

class BVI:
    """loop-free MIR over machine integers -> Z3 bit vectors; every branch is followed, panics become obligations"""
    def __init__(self, prog): self.prog = prog; self.tys = prog.tys; self.mem = {}; self.n = 0; self.bad = []
    def cell(self, v): self.n += 1; self.mem[self.n] = v; return ('ref', self.n, ())
    def get(self, r):
        v = self.mem[r[1]]
        for p in r[2]: v = v[p]
        return v
    def width(self, t):
        T = self.tys[t]
        if T['k'] == 'bool': return 1, False
        if T['k'] not in ('uint', 'int'): raise Unsupported(f"bit vectors: type {T['s']}")
        return T['w'], T['k'] == 'int'
    def place(self, fr, pl):
        r = ('ref', fr[pl[0]], ())
        for p in pl[1]:
            if p[0] == 'deref': r = self.get(r)
            elif p[0] == 'field': r = (r[0], r[1], r[2] + (p[1],))
            else: raise Unsupported(f'bit vectors: projection {p[0]}')
            if not isinstance(r, tuple): raise Unsupported('bit vectors: reference')
        return r
    def set(self, r, v):
        def up(o, path): return v if not path else [up(x, path[1:]) if i == path[0] else x for i, x in enumerate(o)]
        self.mem[r[1]] = up(self.mem[r[1]], r[2])
    def op(self, fr, o):
        if o[0] in ('copy', 'move'): return self.get(self.place(fr, o[1]))
        if o[0] == 'const' and isinstance(o[2], dict) and 'i' in o[2]: return z3.BitVecVal(int(o[2]['i']), self.width(o[1])[0])
        if o[0] == 'const': return None
        raise Unsupported(f'bit vectors: operand {o[0]}')
    def bit(self, c): return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    def bin(self, op, a, b, t):
        w, sg = self.width(t)
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            k = z3.ZeroExt(w - b.size(), b) if b.size() < w else z3.Extract(w - 1, 0, b)
            k = z3.URem(k, z3.BitVecVal(w, w)) if w & (w - 1) else k & (w - 1)
            return a << k if op.startswith('Shl') else (a >> k if sg else z3.LShR(a, k))
        f = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b, 'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b,
             'Eq': lambda: self.bit(a == b), 'Ne': lambda: self.bit(a != b), 'Lt': lambda: self.bit(a < b if sg else z3.ULT(a, b)), 'Le': lambda: self.bit(a <= b if sg else z3.ULE(a, b)),
             'Gt': lambda: self.bit(a > b if sg else z3.UGT(a, b)), 'Ge': lambda: self.bit(a >= b if sg else z3.UGE(a, b))}
        if op not in f: raise Unsupported(f'bit vectors: {op}')
        return f[op]()
    def rv(self, fr, rv):
        k = rv[0]
        if k == 'use': return self.op(fr, rv[1])
        if k == 'bin': return self.bin(rv[1], self.op(fr, rv[2]), self.op(fr, rv[3]), rv[4])
        if k == 'cbin':
            a, b = self.op(fr, rv[2]), self.op(fr, rv[3]); w, sg = self.width(rv[4])
            ext = (z3.SignExt if sg else z3.ZeroExt)
            wide = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mul': lambda x, y: x * y}[rv[1]]
            r = wide(a, b)
            return [r, self.bit(wide(ext(w + 1, a), ext(w + 1, b)) != ext(w + 1, r))]
        if k == 'un':
            a = self.op(fr, rv[2])
            if rv[1] == 'Neg': return -a
            if rv[1] == 'Not': return ~a
            raise Unsupported(f'bit vectors: {rv[1]}')
        if k == 'cast' and rv[1] == 'IntToInt':
            a = self.op(fr, rv[2]); w, _ = self.width(rv[3]); f, sg = self.width(rv[4])
            return z3.Extract(w - 1, 0, a) if w <= f else (z3.SignExt if sg else z3.ZeroExt)(w - f, a)
        if k == 'cast' and rv[1] in ('PtrToPtr',): return self.op(fr, rv[2])
        if k in ('ref', 'addrof'): return self.place(fr, rv[1])
        if k == 'agg': return [self.op(fr, o) for o in rv[2]]
        raise Unsupported(f'bit vectors: rvalue {k}')
    def call(self, idx, args, pc, depth=0):
        """[(path condition, result)]"""
        inst = self.prog.insts[idx]
        if depth > 12: raise Unsupported('bit vectors: call depth')
        if inst.get('intr') == 'volatile_load': return [(pc, self.get(args[0]))]
        if inst['name'].startswith('core::panicking'): self.bad.append(pc); return []
        b = inst.get('body')
        if not b: raise Unsupported(f"bit vectors: no body for {inst['name']}")
        fr = {}
        for i, t in enumerate(b['locals']):
            self.n += 1; fr[i] = self.n
            self.mem[self.n] = args[i - 1] if 1 <= i <= b['argc'] else None
        out = []
        def go(bb, pc, mem, seen):
            while True:
                if bb in seen: raise Unsupported('bit vectors: loop')
                seen = seen | {bb}
                B = b['blocks'][bb]
                for s in B['s']:
                    if s[0] != '=': continue
                    self.set(self.place(fr, s[1]), self.rv(fr, s[2]))
                t = B['t']
                if t[0] == 'return': out.append((pc, self.get(('ref', fr[0], ())))); return
                if t[0] == 'goto': bb = t[1]; continue
                if t[0] == 'assert':
                    c = self.op(fr, t[1]); e = z3.BitVecVal(1 if t[2] else 0, 1)
                    self.bad.append(z3.And(pc, c != e)); pc = z3.And(pc, c == e); bb = t[4]; continue
                if t[0] == 'switch':
                    if t[1][0] == 'rtcheck': bb = next(j for v, j in t[2] if v == '0'); continue
                    c = self.op(fr, t[1]); save = dict(self.mem); rest = pc
                    for v, j in t[2]:
                        cond = c == z3.BitVecVal(int(v), c.size())
                        self.mem = dict(save); go(j, z3.And(pc, cond), None, seen); rest = z3.And(rest, z3.Not(cond))
                    self.mem = dict(save); go(t[3], rest, None, seen); return
                if t[0] == 'call':
                    rs = self.call(t[1], [self.op(fr, o) for o in t[2]], pc, depth + 1)
                    if not rs: return
                    if len(rs) > 1: raise Unsupported('bit vectors: several outcomes')
                    pc = rs[0][0]; self.set(self.place(fr, t[3]), rs[0][1]); bb = t[4]; continue
                if t[0] == 'unreachable': self.bad.append(pc); return
                raise Unsupported(f'bit vectors: {t[0]}')
        go(0, pc, None, frozenset())
        return out

def holds(E, what, where, cond):
    s = z3.Solver(); s.set('timeout', 120000); s.add(z3.Not(cond)); t = time.time(); r = s.check()
    E.obl(where, what + ' (Z3, bit vectors)', r == z3.unsat, str(r))

@guarded
def dep_subtle(E):
    """every integer primitive of subtle that occurs meets the contract the engine uses for it"""
    n = 0
    for idx, inst in enumerate(E.prog.insts):
        if inst['crate'] != 'subtle' or not inst.get('body'): continue
        m = re.fullmatch(r'<(u8|u16|u32|u64|usize|i8|i16|i32|i64|u128|i128) as (ConstantTimeEq>::ct_eq|ConditionallySelectable>::conditional_select)', inst['tdef'])
        if not m: continue
        n += 1
        T = next(t for t in E.prog.tys if t['s'] == m[1]); w = T['w']; nm = inst['tdef']
        B = BVI(E.prog); a, b = z3.BitVecs('a b', w); c = z3.BitVec('c', 8)
        ra, rb = B.cell(a), B.cell(b)
        if 'ct_eq' in nm:
            rs = B.call(idx, [ra, rb], z3.BoolVal(True))
            good = z3.And(*[z3.Implies(p, (r[0] if isinstance(r, list) else r) == z3.If(a == b, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))) for p, r in rs])
            pre = z3.BoolVal(True); what = 'Choice 1 when equal, Choice 0 otherwise'
        else:
            rs = B.call(idx, [ra, rb, [c]], z3.Or(c == 0, c == 1))
            good = z3.And(*[z3.Implies(p, r == z3.If(c == 1, b, a)) for p, r in rs])
            pre = z3.Or(c == 0, c == 1); what = 'the first operand for choice 0, the second for choice 1'
        holds(E, what, nm, good)
        holds(E, 'some path returns', nm, z3.Implies(pre, z3.Or(*[p for p, _ in rs])))
        holds(E, 'no panic', nm, z3.Not(z3.Or(*B.bad)) if B.bad else z3.BoolVal(True))
        E.log.contracts[nm] = [what]
    # slices: the element comparison by its contract, as fresh booleans
    for idx, inst in enumerate(E.prog.insts):
        if inst['tdef'] != '<[T] as ConstantTimeEq>::ct_eq' or not inst.get('body'): continue
        n += 1
        N = 56
        ex, st = gx(E)
        bs = []
        def elem(ex, st, inst, a):
            v = fresh(0, 1, f'eq{len(bs)}'); bs.append((ex.load(st, a[0]), ex.load(st, a[1]), v)); return [(1, st, Agg([v]))]
        xs, ys = [[fresh(0, 255, f'{p}{i}') for i in range(N)] for p in 'xy']
        args = [Ref(ex.new_cell(st, Agg(v), 'arr'), (), 0, N) for v in (xs, ys)]
        name = '<[T] as ConstantTimeEq>::ct_eq'
        def bare(st, args):
            old = models._tab; models._tab = dict(old)
            for i in E.prog.insts: i.pop('_model', None)
            try:
                models._tab.pop(models.norm(name)); models._tab[models.norm('<u8 as ConstantTimeEq>::ct_eq')] = elem
                return ex.call_inst(st, idx, args)
            finally:
                models._tab = old
                for i in E.prog.insts: i.pop('_model', None)
        o = bare(st, args)
        ok = len(o) == 1 and [(id(p), id(q)) for p, q, _ in bs] == [(id(p), id(q)) for p, q in zip(xs, ys)]
        E.obl(name, f'compares element i of one slice with element i of the other, for each i (length {N})', ok)
        if ok:
            r = o[0][2].f[0]; p = P(r)
            one = p; zero = True
            for _, _, v in bs:
                vid = next(iter(pvars(P(v))))
                zero = zero and not psubst(p, vid, pconst(0))
                one = psubst(one, vid, pconst(1))
            E.obl(name, 'Choice 1 when all elements are equal', one == pconst(1)); E.obl(name, 'Choice 0 when an element differs', zero)
        for l, m in ((56, 55), (0, 0)):
            st = State(); a1 = [Ref(ex.new_cell(st, Agg([0] * k), 'arr'), (), 0, k) for k in (l, m)]
            bs.clear(); o = bare(st, a1)
            E.obl(name, f'lengths {l} and {m}: Choice {int(l == m)}', len(o) == 1 and o[0][2].f[0] == int(l == m))
        E.log.absorb(ex, f'{E.backend}: {name}')
        E.log.contracts[name] = ['Choice 1 exactly when lengths and all elements are equal (length 56; other lengths are rejected or unused)']
