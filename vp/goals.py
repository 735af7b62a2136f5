"""The contracts of the listed properties, as goals over the real code's MIR.

Every goal function gets an Env (one back end's program) and records obligations
in env.log.  A goal never looks at how the code is written: it runs the compiled
code symbolically for all inputs of its precondition and proves the postcondition."""
import traceback
from scalar import *
from group import *

A_ED = {'fiat': 'fiat_u64_backend', 'u32': 'u32_backend'}

class Env:
    def __init__(self, path, backend):
        self.backend = backend
        self.prog = Prog(path); self.ty = Types(self.prog); self.log = Log()
        self.fc = FieldContracts(self.prog, self.ty, backend, self.log)
        self.kinds = Kinds(self.prog, self.ty)
        self.pc = PointContracts(self.prog, self.ty, self.fc, self.kinds, backend, self.log)
        self.sc = ScalarContracts(self.prog, self.ty, backend, self.log)
        self.T = self.fc.tight()
        self.F = self.prog.tys[self.ty.fe]['n']
        self.openctx = None; self.gxused = False
        self.inv = self.T          # representation invariant: limb bounds of every coordinate the API hands out
    # ---- lookups
    def root(self, n):
        i = self.prog.root('vharness::' + n)
        if i is None:
            if n in INTERNAL: raise Gone(n)
            raise Unsupported(f'client function {n} missing')
        return i
    def method(self, suffix, fe=True):
        """index of an internal function, None if it no longer exists under that name"""
        c = [i for n, i in self.prog.roots.items() if n.endswith(suffix) and (not fe or self.F in n)]
        return c[0] if len(c) == 1 else None
    def obl(self, where, what, ok, detail=''): return self.log.obl(f'{self.backend}: {where}', what, bool(ok), detail)
    # ---- symbolic inputs
    def pt(self, name, kind='E1ext'):
        k = self.kinds.by_name[kind]
        return PointV(k, {name: 1}, (self.inv,) * len(k.fields))
    def bytes(self, n, name='b'): return Agg([fresh(0, 255, f'{name}{i}') for i in range(n)])
    def arg(self, ex, st, t0, name):
        """generic argument of type t0: (value passed, description)"""
        mode, t = self.ty.strip(t0)
        ty = self.ty
        if t == ty.scalar: v, d = self.sc.symbolic(st, name + '_')
        elif t == ty.decaf: v = Agg([self.pt(name, 'E2ext')]); d = name
        elif t == ty.edw: v = self.pt(name); d = name
        elif t == ty.mont: v = Agg([self.bytes(56, name)]); d = v
        elif t == ty.choice: v = Agg([fresh(0, 1, name)]); d = v.f[0]
        elif self.prog.tys[t]['k'] == 'array' and self.prog.tys[t]['e'] == ty.edw:
            v = Agg([self.pt(f'{name}{i}') for i in range(self.prog.tys[t]['n'])]); d = None
        elif ty.is_bytes(t): v = self.bytes(self.prog.tys[t]['n'], name); d = v
        else: raise Unsupported('argument type ' + self.prog.tys[t]['s'])
        return (v if mode == 'val' else Ref(ex.new_cell(st, v))), d


import smt, sym as _sym
def prove(goal, facts, depth=6):
    return _sym.prove(goal, facts, depth) or smt.prove(goal, facts)
def refute(facts, depth=8):
    return _sym.refute(facts, depth) or smt.refute(facts)

class Gone(Exception): pass
# client functions of methods that the public interface does not name: left out when those methods were renamed
INTERNAL = ('s_bits', 'e_torque', 'e_smod4', 'e_iso_rt', 't_double', 't_add', 't_sub', 't_addx', 't_addn', 't_niels_rt', 't_neg', 't_eq', 't_xeq', 't_torque_eq', 't_neq', 't_nneg', 't_nselect', 't_select', 't_default', 't_ndefault')
def guarded(f):
    """a goal that cannot be completed is a failed obligation, with the reason.  A goal over abstract
    points is tried again with points opened into coordinates, once per combination of decisions"""
    def g(E, *a, **k):
        name = f.__name__ + ''.join(f':{x}' for x in a if isinstance(x, str))
        def once():
            try:
                with VarScope(): f(E, *a, **k)
            except Gone as e: E.log.inlined[f'(client function {e} left out: the internal methods it calls no longer exist under their names; they are verified through the public operations)'] = 1
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)[-1]
                att = '; '.join(f'{w}: {x} {d}' for w, x, d in E.log.attempts[-3:])
                E.obl(name, 'obligations generated and discharged', False, f'{type(e).__name__}: {e} [{tb.name}:{tb.lineno}] {att}')
        n0, f0 = E.log.n, len(E.log.failed)
        E.gxused = False
        once()
        if len(E.log.failed) > f0 and E.gxused:
            n1, failed = E.log.n, E.log.failed[f0:]
            del E.log.failed[f0:]; E.log.n = n0
            def body(ctx):
                E.openctx = ctx
                once()
                if len(E.log.failed) > f0: raise Mismatch('failed')
            try: run_all(PP, body, 256)
            except Exception as e:
                if OPENDEBUG: print('open:', e, E.log.failed[f0:][:2])
                E.log.failed[f0:] = failed; E.log.n = n1
            finally: E.openctx = None
    g.__name__ = f.__name__
    return g
import os
OPENDEBUG = os.environ.get('OPENDEBUG')

# ================================================================ scalars
def sval(E, ex, q): return q

@guarded
def scalar_ring(E, fn):
    """+, -, * on scalars"""
    ctx = Ctx(ELL); ex = SEx(E.prog, E.ty, E.sc, ctx); st = State()
    cls = 'any' if fn == 's_mul' else 'canonical'
    a, b = ScalarV(ctx.var('a'), cls), ScalarV(ctx.var('b'), cls)
    o = ex.call_inst(st, E.root(fn), [a, b])
    E.log.absorb(ex, f'{E.backend}: {fn}')
    if len(o) != 1: return E.obl(fn, 'single outcome', False)
    r = o[0][2]
    e = {'s_add': lambda: a.q + b.q, 's_sub': lambda: a.q - b.q, 's_mul': lambda: a.q * b.q}[fn]()
    E.obl(fn, f'result = a {dict(s_add="+", s_sub="-", s_mul="*")[fn]} b mod l for all {"448-bit" if cls == "any" else "reduced"} a, b', isinstance(r, ScalarV) and r.q.same(e), r)
    E.obl(fn, 'result is reduced (< l)', r.cls == 'canonical')

@guarded
def scalar_unary(E, fn):
    ctx = Ctx(ELL); ex = SEx(E.prog, E.ty, E.sc, ctx); st = State()
    a = ScalarV(ctx.var('a'), 'any' if fn == 's_invert' else 'canonical')
    o = ex.call_inst(st, E.root(fn), [Ref(ex.new_cell(st, a))])
    E.log.absorb(ex, f'{E.backend}: {fn}')
    if len(o) != 1: return E.obl(fn, 'single outcome', False)
    r = o[0][2]
    ok = isinstance(r, ScalarV)
    if fn == 's_invert':
        f = r.q.f
        n = (ELL - 2)
        ok = ok and r.q.c == 1 and len(f) == 1 and list(f) == list(a.q.f) and list(f.values())[0] > 0 and (list(f.values())[0] - n) % (ELL - 1) == 0
        E.obl(fn, 'result = a^(l-2) mod l: the inverse for a != 0, and 0 for a = 0', ok, r)
    else: E.obl(fn, '2 * result = a mod l', ok and (r.q * 2).same(a.q), r)
    E.obl(fn, 'result is reduced (< l)', ok and r.cls == 'canonical')

@guarded
def scalar_halve_any(E):
    """halving of an unreduced scalar"""
    ex = Exec(E.prog); st = State()
    a, V = E.sc.symbolic(st, 'a', 'any')
    o = ex.call_inst(st, E.root('s_halve'), [Ref(ex.new_cell(st, a))])
    E.log.absorb(ex, f'{E.backend}: s_halve')
    r = E.sc.value(o[0][2])
    E.obl('s_halve', '2 * result = a mod l for every 448-bit a', len(o) == 1 and prove(('zero', P(sub(mul(2, r), V)), ELL), o[0][1].facts))

@guarded
def scalar_const(E):
    for fn, v in (('s_zero', 0), ('s_one', 1), ('s_default', 0)):
        ex = Exec(E.prog); st = State()
        o = ex.call_inst(st, E.root(fn), [])
        E.log.absorb(ex, f'{E.backend}: {fn}')
        E.obl(fn, f'= {v}', len(o) == 1 and E.sc.value(o[0][2]) == v)
    ex = Exec(E.prog); st = State()
    a = fresh(0, 2**32 - 1, 'a')
    o = ex.call_inst(st, E.root('s_from_u32'), [a])
    E.log.absorb(ex, f'{E.backend}: s_from_u32')
    E.obl('s_from_u32', 'value = a', len(o) == 1 and prove(('zero', P(sub(E.sc.value(o[0][2]), a)), None), o[0][1].facts))

@guarded
def scalar_enc(E, fn):
    """encodings that are total functions of the value"""
    ex = Exec(E.prog); st = State()
    if fn == 's_from_bytes':
        b = E.bytes(56)
        o = ex.call_inst(st, E.root(fn), [b]); V = lv(b.f, 8)
        r = E.sc.value(o[0][2]); what = 'value = little-endian value of the bytes'; n = True
        n = all(LO(x) >= 0 and HI(x) < 1 << E.sc.lw for x in E.ty.flat(o[0][2]))
    else:
        a, V = E.sc.symbolic(st, 'a')
        o = ex.call_inst(st, E.root(fn), [Ref(ex.new_cell(st, a))])
        r = o[0][2]
        items = r.items if hasattr(r, 'items') and not isinstance(r, Agg) else r.f
        n = len(items) == dict(s_to_bytes=56, s_to_bytes_rfc=57, s_bits=448)[fn]
        w = 1 if fn == 's_bits' else 8
        n = n and all(LO(x) >= 0 and HI(x) < 1 << w for x in items)
        r = lv(items, w); what = 'little-endian digits have exactly the value of the scalar'
    E.log.absorb(ex, f'{E.backend}: {fn}')
    E.obl(fn, what, len(o) == 1 and prove(('zero', P(sub(r, V)), None), o[0][1].facts))
    E.obl(fn, 'length and digit range', n)

@guarded
def scalar_canonical(E):
    fn = 's_from_canonical'
    for lo, hi in ((0, ELL - 1), (ELL, 2**456 - 1)):
        with VarScope():
            ex = Exec(E.prog); st = State()
            b = E.bytes(57)
            named_sum([VARS[list(x.p)[0][0]] for x in b.f], 8, lo, hi, 'B'); st.facts = st.facts.assume(b.f[56].p, 0, 255)
            o = ex.call_inst(st, E.root(fn), [b])
            E.log.absorb(ex, f'{E.backend}: {fn}')
            for c, s, r in o:
                for s2, v in leaves(ex, s, r):
                    if lo == 0:
                        if v.v == 1: E.obl(fn, 'accepted value = little-endian value of the bytes', prove(('zero', P(sub(E.sc.value(v.f[0]), lv(b.f, 8))), None), s2.facts))
                        else: E.obl(fn, 'integers below l are accepted', refute(s2.facts))
                    elif v.v == 1: E.obl(fn, 'integers >= l are rejected', refute(s2.facts))

@guarded
def scalar_eq(E):
    for fn in ('s_eq', 's_ne', 's_ct_eq'):
        with VarScope():
            ex = Exec(E.prog); st = State()
            a, A = E.sc.symbolic(st, 'a'); b, B = E.sc.symbolic(st, 'b')
            o = ex.call_inst(st, E.root(fn), [Ref(ex.new_cell(st, a)), Ref(ex.new_cell(st, b))])
            E.log.absorb(ex, f'{E.backend}: {fn}')
            r = o[0][2]
            if isinstance(r, Agg): r = r.f[0]
            want = 0 if fn == 's_ne' else 1
            # equal limbs force the answer, the answer forces equal limbs
            st2 = ex.assume(o[0][1].fork(), r, want) if isinstance(r, Sym) else None
            E.obl(fn, 'answers "equal" only if the values are equal', st2 is not None and prove(('zero', P(sub(A, B)), None), st2.facts))
        with VarScope():
            ex = Exec(E.prog); st = State()
            a, A = E.sc.symbolic(st, 'a')
            o = ex.call_inst(st, E.root(fn), [Ref(ex.new_cell(st, a)), Ref(ex.new_cell(st, a))])
            E.log.absorb(ex, f'{E.backend}: {fn}')
            r = o[0][2]
            if isinstance(r, Agg): r = r.f[0]
            E.obl(fn, 'answers "equal" on equal scalars', r == want if iscon(r) else prove(('range', P(r), want, want), o[0][1].facts))

@guarded
def scalar_index(E):
    for i in range(E.sc.nl):
        with VarScope():
            ex = Exec(E.prog); st = State()
            a, A = E.sc.symbolic(st, 'a'); la = E.ty.flat(a)
            o = ex.call_inst(st, E.root('s_index'), [Ref(ex.new_cell(st, a)), i])
            E.obl('s_index', f'word {i} of the value', len(o) == 1 and prove(('zero', P(sub(o[0][2], la[i])), None), o[0][1].facts))
            v = fresh(0, 2**32 - 1, 'v'); ra = Ref(ex.new_cell(st, a))
            o = ex.call_inst(st, E.root('s_index_mut'), [ra, i, v])
            nl = E.ty.flat(ex.load(o[0][1], ra))
            E.obl('s_index_mut', f'exactly word {i} is replaced', len(o) == 1 and all(P(x) == P(v if j == i else y) for j, (x, y) in enumerate(zip(nl, la))))
            E.log.absorb(ex, f'{E.backend}: s_index')

@guarded
def scalar_wide(E):
    ctx = Ctx(ELL); ex = SEx(E.prog, E.ty, E.sc, ctx); st = State()
    b = E.bytes(114)
    o = ex.call_inst(st, E.root('s_wide'), [Ref(ex.new_cell(st, b))])
    E.log.absorb(ex, f'{E.backend}: s_wide')
    r = o[0][2]
    ok = len(o) == 1 and isinstance(r, ScalarV)
    E.obl('s_wide', 'value = little-endian value of the 114 bytes mod l', ok and prove(('zero', P(sub(ex.concretise(r.q), lv(b.f, 8))), ELL), o[0][1].facts), r)
    E.obl('s_wide', 'result is reduced (< l)', ok and r.cls == 'canonical')

@guarded
def scalar_random(E):
    """random(): the wide reduction of 114 bytes that all come from the generator"""
    ctx = Ctx(ELL); ex = SEx(E.prog, E.ty, E.sc, ctx); st = State()
    got = []
    def fill(ex_, st_, inst, args):
        s = args[0]; n = ex_.length(st_, s); o = s.start or 0
        v = ex_.load(st_, Ref(s.cell, s.path)); f = list(v.f)
        for i in range(n):
            f[o + i] = fresh(0, 255, f'r{len(got)}'); got.append(f[o + i])
        ex_.store(st_, Ref(s.cell, s.path), Agg(f, v.v))
        return [(1, st_, Agg([]))]
    ex.contracts[E.prog.insts[E.root('rng_fill')]['tdef']] = fill
    o = ex.call_inst(st, E.root('s_random'), [Ref(ex.new_cell(st, Agg([])))])
    E.log.absorb(ex, f'{E.backend}: s_random')
    r = o[0][2]
    E.obl('s_random', 'at least 112 bytes are drawn', len(got) >= 112, len(got))
    E.obl('s_random', 'value = value of the generator output mod l', len(o) == 1 and isinstance(r, ScalarV) and prove(('zero', P(sub(ex.concretise(r.q), lv(got, 8))), ELL), o[0][1].facts), r)
    E.obl('s_random', 'result is reduced (< l)', isinstance(r, ScalarV) and r.cls == 'canonical')

# ================================================================ base field
FE_OPS = {'add': ('Add>::add', ['fe', 'fe'], {(0,): 1, (1,): 1}), 'sub': ('Sub>::sub', ['fe', 'fe'], {(0,): 1, (1,): PP - 1}),
          'mul': ('Mul>::mul', ['fe', 'fe'], {(0, 1): 1}), 'square': ('::square', ['fe'], {(0, 0): 1}), 'negate': ('::negate', ['fe'], {(0,): PP - 1})}

@guarded
def fe_op(E, op):
    suf, ins, poly = FE_OPS[op]
    for n, idx in E.prog.roots.items():
        if not (E.F in n and n.endswith(suf)) or n.endswith('conditional_negate'): continue
        b = E.prog.insts[idx]['body']
        modes = [E.ty.strip(t) for t in b['locals'][1:1 + b['argc']]]
        if [t for _, t in modes] != [E.ty.fe] * len(ins) or b['locals'][0] != E.ty.fe: continue
        descr = tuple(('fe', m, E.T) for m, _ in modes)
        c = E.fc.get(idx, descr)
        E.obl(n, f'congruent to the {op} of the operands mod p, for all operands within the limb invariant', c is not None and c['polys'] == [poly], E.log.attempts[-2:])
        if c: E.obl(n, 'result satisfies the limb invariant again', E.fc.widen(c['bounds'][0]) == E.T or op == 'negate' or all(hi <= E.fc.classes[-1][1][1] for lo, hi in c['bounds'][0]), c['bounds'])

@guarded
def fe_bytes(E):
    i = E.method('::to_bytes'); j = E.method('::from_bytes')
    if i is not None:
        for cname, cl in E.fc.classes[:1]:
            c = E.fc.get(i, (('fe', E.ty.strip(E.prog.insts[i]['body']['locals'][1])[0], (cl,) * E.ty.nl),))
            E.obl('to_bytes', f'56 bytes: the canonical encoding (< p) of the value mod p ({cname} limbs)', c is not None and c['kinds'] == ['bytes'] and c['polys'] == [{(0,): 1}], E.log.attempts[-2:])
    if j is not None:
        c = E.fc.get(j, (('bytes', E.ty.strip(E.prog.insts[j]['body']['locals'][1])[0]),))
        E.obl('from_bytes', 'value congruent to the little-endian integer mod p, limb invariant holds', c is not None and c['kinds'] == ['fe'] and c['polys'] == [{(0,): 1}] and E.fc.widen(c['bounds'][0]) == E.T, E.log.attempts[-2:])
    for nm in ('::strong_reduce', '::weak_reduce'):
        k = E.method(nm)
        if k is not None:
            m = E.ty.strip(E.prog.insts[k]['body']['locals'][1])[0]
            c = E.fc.get(k, (('fe', m, E.T),))
            E.obl(nm[2:], 'keeps the value mod p', c is not None and c['polys'] == [{(0,): 1}], E.log.attempts[-2:])

def fe_run(E, body, limit=4096):
    """all branches over field values; body(ctx, ex, st) -> None"""
    def b(ctx):
        ctx.hints = []
        ex = FEx(E.prog, E.ty, E.fc, ctx); st = State()
        body(ctx, ex, st)
    n = run_all(PP, b, limit)
    E.log.branches = getattr(E.log, 'branches', 0) + n
    return n

@guarded
def fe_eq(E):
    for n, idx in list(E.prog.roots.items()):
        if E.F not in n or not n.endswith(('::ct_eq', 'PartialEq for ' + E.F + '>::eq', '::eq')): continue
        if E.prog.insts[idx]['body']['argc'] != 2 or any(E.ty.strip(t)[1] != E.ty.fe for t in E.prog.insts[idx]['body']['locals'][1:3]): continue
        def body(ctx, ex, st):
            a, b = ctx.var('a'), ctx.var('b')
            o = ex.call_inst(st, idx, [Ref(ex.new_cell(st, FEV(a, E.T))), Ref(ex.new_cell(st, FEV(b, E.T)))])
            E.log.absorb(ex, n)
            r = o[0][2]; r = r.f[0] if isinstance(r, Agg) else r
            r = ex.resolve(r)
            E.obl(n, 'true iff the values are equal mod p', r == int((a - b).is_zero()), ctx.trace)
        fe_run(E, body)
    k = E.method('::is_zero')
    if k is not None:
        def body(ctx, ex, st):
            a = ctx.var('a')
            o = ex.call_inst(st, k, [Ref(ex.new_cell(st, FEV(a, E.T)))]); E.log.absorb(ex, 'is_zero')
            r = o[0][2]; r = r.f[0] if isinstance(r, Agg) else r
            E.obl('is_zero', 'true iff the value is 0 mod p', ex.resolve(r) == int(a.is_zero()), ctx.trace)
        fe_run(E, body)
    k = E.method('::is_negative')
    if k is not None:
        def body(ctx, ex, st):
            a = ctx.var('a')
            o = ex.call_inst(st, k, [Ref(ex.new_cell(st, FEV(a, E.T)))]); E.log.absorb(ex, 'is_negative')
            r = o[0][2]; r = r.f[0] if isinstance(r, Agg) else r
            E.obl('is_negative', 'the parity of the canonical representative', ex.resolve(r) == a.neg_bit(), ctx.trace)
        fe_run(E, body)

@guarded
def fe_select(E):
    for nm in ('::conditional_select', '::conditional_negate', '::conditional_assign', '::conditional_swap'):
        i = E.method(nm)
        if i is None: continue
        for bit in (0, 1):
            def body(ctx, ex, st):
                a, b = ctx.var('a'), ctx.var('b')
                if nm.endswith('select'):
                    o = ex.call_inst(st, i, [Ref(ex.new_cell(st, FEV(a, E.T))), Ref(ex.new_cell(st, FEV(b, E.T))), Agg([bit])])
                    q, bd = ex.fe_value(o[0][2]); exp = b if bit else a
                elif nm.endswith('negate'):
                    ra = Ref(ex.new_cell(st, FEV(a, E.T)))
                    o = ex.call_inst(st, i, [ra, Agg([bit])])
                    q, bd = ex.fe_value(ex.load(o[0][1], ra)); exp = -a if bit else a
                else: return
                E.log.absorb(ex, nm)
                E.obl(nm[2:], f'choice {bit}: the selected value', len(o) == 1 and q.same(exp))
            fe_run(E, body)

@guarded
def fe_invert(E):
    i = E.method('>::invert')
    if i is None: return
    def body(ctx, ex, st):
        a = ctx.var('a')
        o = ex.call_inst(st, i, [Ref(ex.new_cell(st, FEV(a, E.T)))]); E.log.absorb(ex, 'invert')
        q, b = ex.fe_value(o[0][2])
        f = q.f
        ok = q.c == 1 and list(f) == list(a.f) and list(f.values())[0] > 0 and (list(f.values())[0] - (PP - 2)) % (PP - 1) == 0
        E.obl('invert', 'result = a^(p-2): the inverse for a != 0, 0 for a = 0', ok, q)
        E.obl('invert', 'limb invariant', E.fc.widen(b) == E.T)
    fe_run(E, body)

@guarded
def fe_isr(E):
    i = E.method('inverse_square_root'); j = E.method('sqrt_ratio')
    if i is not None:
        def body(ctx, ex, st):
            a = ctx.var('a')
            o = ex.call_inst(st, i, [Ref(ex.new_cell(st, FEV(a, E.T)))]); E.log.absorb(ex, 'inverse_square_root')
            q, b = ex.fe_value(o[0][2].f[0]); c = ex.resolve(o[0][2].f[1].f[0])
            if a.is_zero():
                E.obl('inverse_square_root', 'a = 0: (0, false)', q.is_zero() and c == 0)
            else:
                k = next(iter(a.f)); x = ctx.chi_base(k)
                E.obl('inverse_square_root', 'flag true iff a is a nonzero square', c == int(x == 1), ctx.trace)
                E.obl('inverse_square_root', 'r^2 a = 1 (nonsquare: r^2 a = -1)', (q * q * a).same(ctx.const(x)), ctx.trace)
            E.obl('inverse_square_root', 'limb invariant', E.fc.widen(b) == E.T)
        fe_run(E, body)
    if j is not None:
        def body(ctx, ex, st):
            u, v = ctx.var('u'), ctx.var('v')
            o = ex.call_inst(st, j, [Ref(ex.new_cell(st, FEV(u, E.T))), Ref(ex.new_cell(st, FEV(v, E.T)))]); E.log.absorb(ex, 'sqrt_ratio')
            q, b = ex.fe_value(o[0][2].f[0]); c = ex.resolve(o[0][2].f[1].f[0])
            uz, vz = u.is_zero(), v.is_zero()
            if uz: E.obl('sqrt_ratio', 'u = 0: (0, true)', q.is_zero() and c == 1)
            elif vz: E.obl('sqrt_ratio', 'v = 0: (0, false)', q.is_zero() and c == 0)
            else:
                x = ctx.chi_base(next(iter(u.f))) * ctx.chi_base(next(iter(v.f)))
                E.obl('sqrt_ratio', 'flag true iff u/v is a square', c == int(x == 1), ctx.trace)
                E.obl('sqrt_ratio', 'r^2 v = u (nonsquare: -u)', (q * q * v).same(u * x), ctx.trace)
        fe_run(E, body)

# ================================================================ points: group level
def gx(E):
    E.gxused = True
    ex = GEx(E.prog, E.ty, E.fc, E.openctx or Ctx(PP), E.pc)
    if E.openctx: ex.open_on()
    return ex, State()

def same_co(ex, st, co, want, depth=8):
    """the combinations denote the same point (the coefficient of (0,-1) counts mod 2); coefficients that
    depend on an equality test are compared in both cases, using the equality where it holds"""
    def usub(d, v, c): return {k: (mk(psubst(P(x), v, pconst(c))) if isinstance(x, Sym) and v in pvars(P(x)) else x) for k, x in d.items()}
    def go(d, rels, depth):
        d = reduce_co({k: x for k, x in d.items() if not (iscon(x) and x == 0)}, rels)
        if not d: return True
        vs = sorted({v for e in [d] + rels for x in e.values() if isinstance(x, Sym) for v in pvars(P(x)) if v in ex.preds and ex.preds[v][1] == 'eq'})
        if vs and depth:
            v = vs[-1]
            return go(usub(d, v, 0), [usub(r, v, 0) for r in rels], depth - 1) and go(usub(d, v, 1), [usub(r, v, 1) for r in rels] + [usub(ex.preds[v][2], v, 1)], depth - 1)
        for k, x in d.items():
            if iscon(x):
                if x and not (k == TORSION and x % 2 == 0): return False
            elif k == TORSION and all(c % 2 == 0 for c in P(x).values()): continue
            elif not prove(('zero', ex.unname(P(x)), None), st.facts): return False
        return True
    return go(cadd(co, want, -1), list(ex.rel) if ex.openmode else [], depth)

def check_pt(E, ex, st, where, v, kind, want, what):
    if isinstance(v, Ite): v = ex.force(st, v)
    k = E.kinds.by_name[kind]
    if isinstance(v, Agg): v = ex.abs_kind(k, v) or v
    ok = isinstance(v, PointV) and v.kind is k and same_co(ex, st, v.co, want)
    why = '' if ok else f'{v!r:.300}'
    E.obl(where, what, ok, why)
    if isinstance(v, PointV):
        E.obl(where, 'coordinates of the result satisfy the limb invariant', all(lo >= a and hi <= b for c in v.b for (lo, hi), (a, b) in zip(c, E.inv)), [c for c in v.b][:1])

def run_pt(E, fn):
    ex, st = gx(E)
    idx = E.root(fn); b = E.prog.insts[idx]['body']
    args = []; ds = []
    for t0, nm in zip(b['locals'][1:1 + b['argc']], 'PQRS'):
        a, d = E.arg(ex, st, t0, nm); args.append(a); ds.append(d)
    o = ex.call_inst(st, idx, args)
    E.log.absorb(ex, f'{E.backend}: {fn}')
    if len(o) != 1: raise Mismatch(f'{fn}: {len(o)} outcomes')
    return ex, o[0][1], o[0][2], args, ds

EDW = {'e_add': 'P+Q', 'e_add_rr': 'P+Q', 'e_add_vr': 'P+Q', 'e_add_rv': 'P+Q', 'e_add_vv': 'P+Q', 'e_sub_rr': 'P-Q', 'e_sub_vr': 'P-Q', 'e_sub_rv': 'P-Q', 'e_sub_vv': 'P-Q',
       'e_neg_r': '-P', 'e_neg_v': '-P', 'e_negate': '-P', 'e_double': '2P', 'e_sum0': '0', 'e_sum3_ref': 'S', 'e_sum3_val': 'P+Q+R'}
COMB = {'P+Q': {'P': 1, 'Q': 1}, 'P-Q': {'P': 1, 'Q': -1}, '-P': {'P': -1}, '2P': {'P': 2}, '0': {}, 'S': {'P0': 1, 'P1': 1, 'P2': 1}, 'P+Q+R': {'P': 1, 'Q': 1, 'R': 1},
        '4P': {'P': 4}, '8P': {'P': 8}, '-4P': {'P': -4}, '4P+4Q': {'P': 4, 'Q': 4}, '4P-4Q': {'P': 4, 'Q': -4}, 'P': {'P': 1}}

@guarded
def edw_op(E, fn, spec):
    ex, st, r, args, ds = run_pt(E, fn)
    check_pt(E, ex, st, fn, r, 'E1ext', COMB[spec], f'result represents {spec} on the curve, for all points and representations')

@guarded
def edw_assign(E, fn, spec):
    ex, st, r, args, ds = run_pt(E, fn)
    check_pt(E, ex, st, fn, ex.load(st, args[0]), 'E1ext', COMB[spec], f'left operand becomes {spec}')
    if isinstance(args[1], Ref): check_pt(E, ex, st, fn, ex.load(st, args[1]), 'E1ext', {'Q': 1}, 'right operand unchanged')

# ---- sums of any length: induction over the calls of the iterator
class Poison(Opq):
    """a location the loop changes and the invariant says nothing about: must not be read"""
    def __repr__(self): return 'poison'
class CutStop(Exception): pass

@guarded
def edw_sum(E, fn):
    """The loop that consumes the iterator is cut where it asks for the next item.  Invariant,
    found by comparing the states at two consecutive such points and then proved inductive: every
    point-valued location that changes holds (its first value) + (sum of the items drawn since)."""
    by_ref = fn.endswith('_ref')
    idx = E.root(fn); k1 = E.kinds.by_name['E1ext']
    nxt = E.prog.insts[E.root('src_next_ref' if by_ref else 'src_next')]['tdef']
    def run(hook):
        """hook(n, ex, st) at the n-th request (from 1) -> name of the item yielded or None"""
        ex, st = gx(E); n = [0]
        def con(ex_, st_, inst, args):
            n[0] += 1
            it = hook(n[0], ex_, st_)
            if it is None: return [(1, st_, Agg([], 0))]
            v = E.pt(it)
            return [(1, st_, Agg([Ref(ex_.new_cell(st_, v)) if by_ref else v], 1))]
        ex.contracts[nxt] = con
        src = Agg([Ref(ex.new_cell(st, E.pt('unused')))]) if by_ref else Agg([])
        o = ex.call_inst(st, idx, [src])
        E.log.absorb(ex, f'{E.backend}: {fn}')
        if len(o) != 1: raise Mismatch(f'{len(o)} outcomes')
        return ex, o[0][1], o[0][2]
    def length(m):
        ex, st, r = run(lambda n, *_: f'I{n}' if n <= m else None)
        check_pt(E, ex, st, fn, r, 'E1ext', {f'I{i + 1}': 1 for i in range(m)}, f'sum of {m} items')
    def pc(ex): return [(f.idx, f.bb) for f in ex.stack]
    def asp(ex, v):
        if isinstance(v, PointV): return v
        return ex.abs_kind(k1, v) if isinstance(v, Agg) and len(v.f) == 4 else None
    def diff(ex, a, b, path, out):
        """leaf paths where a and b differ -> (path, point before | None, point after | None)"""
        if a is b: return
        p, q = asp(ex, a), asp(ex, b)
        if p is not None and q is not None:
            if not same_co(ex, State(), p.co, q.co) or p.b != q.b: out.append((path, p, q))
            return
        if isinstance(a, (int, Sym)) and isinstance(b, (int, Sym)):
            if P(a) != P(b): out.append((path, None, None))
            return
        if isinstance(a, (Ref, IterV)) and type(a) is type(b) and a == b: return
        if isinstance(a, Agg) and isinstance(b, Agg) and a.v == b.v and len(a.f) == len(b.f):
            for i, (x, y) in enumerate(zip(a.f, b.f)): diff(ex, x, y, path + (i,), out)
            return
        out.append((path, None, None))
    def snapshot(ex, st):
        fr = {f.id: i for i, f in enumerate(ex.stack)}
        # cells of live frames are named by depth, so that inner frames entered anew compare equal
        return {((('frame', fr[c[0]]), c[1]) if c[0] in fr else c): c for c in st.mem}, dict(st.mem)
    def find():
        seen = []; snaps = []
        def hook(n, ex, st):
            here = pc(ex); nm, mem = snapshot(ex, st)
            snaps.append((here, nm, mem, ex))
            return f'I{n}' if n < 5 else None
        run(hook)
        for k in range(len(snaps) - 1):
            if snaps[k][0] == snaps[k + 1][0] and k < 3: return k, snaps[k], snaps[k + 1]
        raise Mismatch('no loop head found')
    n0, f0 = E.log.n, len(E.log.failed)
    try:
        k, (here, nm1, m1, ex1), (_, nm2, m2, _) = find()
        for m in range(k + 1): length(m)
        changes = []
        for key, c in nm1.items():
            if key not in nm2: changes.append((key, (), None, None)); continue
            d = []; diff(ex1, m1[c], m2[nm2[key]], (), d)
            changes += [(key, p, a, b) for p, a, b in d]
        inv = [(key, p, a) for key, p, a, b in changes if a is not None]
        if not inv: raise Mismatch('no accumulator')
        bnd = (E.inv,) * 4
        first = {f'I{i + 1}': 1 for i in range(k)}
        def generic(last):
            def hook(n, ex, st):
                if n <= k: return f'I{n}'
                if n == k + 1:
                    if pc(ex) != here: raise Mismatch('program point')
                    nm, mem = snapshot(ex, st)
                    for key, p, a, b in changes:
                        c = nm[key]
                        v = Poison() if a is None else PointV(k1, cadd(a.co, {'S': 1}), bnd)
                        if a is not None: E.obl(fn, 'invariant holds on entry: limb bounds', all(lo >= x and hi <= y for co in a.b for (lo, hi), (x, y) in zip(co, E.inv)))
                        ex.store(st, Ref(c, p), v)
                    return last
                if last is None: return None
                if pc(ex) != here: raise Mismatch('program point')
                nm, mem = snapshot(ex, st)
                for key, p, a in inv:
                    v = asp(ex, ex.load(st, Ref(nm[key], p)))
                    ok = v is not None and same_co(ex, st, v.co, cadd(a.co, {'S': 1, 'N': 1})) and all(lo >= x and hi <= y for co in v.b for (lo, hi), (x, y) in zip(co, E.inv))
                    E.obl(fn, 'loop invariant preserved: accumulator = sum of the items drawn', ok, v)
                # everything outside the invariant is as at the loop head
                for key, c in nm0.items():
                    d = []
                    if key in nm: diff(ex, mem0[c], mem[nm[key]], (), d)
                    else: d = [((), None, None)]
                    for p, a, b in d:
                        E.obl(fn, 'locations outside the invariant unchanged by an iteration', any(key == kk and p[:len(pp)] == pp for kk, pp, *_ in changes), (key, p))
                raise CutStop
            return hook
        # exit
        ex, st, r = run(generic(None))
        check_pt(E, ex, st, fn, r, 'E1ext', cadd(first, {'S': 1}), 'at the end of the iterator the result is the sum of all items')
        # step
        nm0 = mem0 = None
        h = generic('N')
        def step(n, ex, st):
            nonlocal nm0, mem0
            r = h(n, ex, st)
            if n == k + 1: nm0, mem0 = snapshot(ex, st)
            return r
        try: run(step); E.obl(fn, 'an iteration returns to the loop head', False)
        except CutStop: pass
        if len(E.log.failed) > f0: raise Mismatch(str(E.log.failed[f0:][:2]))
        E.log.lemmas[f'induction over the items drawn in {fn}'] = f'loop head {here}, {len(inv)} accumulator locations'
    except (Mismatch, Unsupported, KeyError, TypeError, AttributeError) as e:
        # the loop is of another shape: bounded stand-in, labelled as such
        del E.log.failed[f0:]; E.log.n = n0
        E.log.bounded.append(f'{E.backend} {fn}: no inductive invariant found ({e!s:.200}); sums of 0 to 9 items only')
        for m in range(10): length(m)

def pred_is(ex, r, kind, co, neg=0, cu=E1):
    """the boolean r is (the negation of) the predicate kind on the combination co"""
    if isinstance(r, Agg): r = r.f[0]
    if ex.openmode:
        r = ex.resolve(r)
        return iscon(r) and r == ex.pred_val(kind, co, cu) ^ neg
    if not isinstance(r, Sym): return False
    vs = list(pvars(r.p))
    if len(vs) != 1 or vs[0] not in ex.preds: return False
    key, k, c = ex.preds[vs[0]]
    flip = {n: sub(0, x) for n, x in co.items()}
    okc = any(same_co(ex, State(), c, w) for w in (co, flip))
    want = {(vs[0],): 1} if not neg else {(vs[0],): -1, (): 1}
    return k == kind and okc and r.p == want

@guarded
def edw_eq(E):
    for fn, ng in (('e_eq', 0), ('e_ne', 1), ('e_ct_eq', 0)):
        ex, st, r, args, ds = run_pt(E, fn)
        E.obl(fn, ('not ' if ng else '') + 'true exactly when both arguments are the same affine point, for all representations', pred_is(ex, r, 'eq', {'P': 1, 'Q': -1}, ng), r)

@guarded
def edw_consts(E):
    G = (0x4f1970c66bed0ded221d15a622bf36da9e146570470f1767ea6de324a3d3a46412ae1af72ab66511433b80e18b00938e2626a82bc70cc05e, 0x693f46716eb6bc248876203756c9c7624bea73736ca3984087789c1e05a0c2d73ad3ff1ce67c39c4fdbd132c4ed7c8ad9808795bf230fa14)
    for fn, p in (('e_identity', (0, 1)), ('e_default', (0, 1)), ('e_generator', G)):
        ex, st, r, args, ds = run_pt(E, fn)
        check_pt(E, ex, st, fn, r, 'E1ext', {} if p == (0, 1) else {('const', p): 1}, 'the identity (0, 1)' if p == (0, 1) else 'the base point of RFC 8032')
    E.obl('generator', 'on the curve and of order l', E1.on(G) and E1.mul(ELL, G) == (0, 1) and G != (0, 1))

@guarded
def edw_select(E, fn):
    ex, st, r, args, ds = run_pt(E, fn)
    if fn == 'e_select': check_pt(E, ex, st, fn, r, 'E1ext', {'P': sub(1, ds[2]), 'Q': ds[2]}, 'P for choice 0, Q for choice 1')
    elif fn == 'e_cassign': check_pt(E, ex, st, fn, ex.load(st, args[0]), 'E1ext', {'P': sub(1, ds[2]), 'Q': ds[2]}, 'P for choice 0, Q for choice 1')
    else:
        check_pt(E, ex, st, fn, ex.load(st, args[0]), 'E1ext', {'P': sub(1, ds[2]), 'Q': ds[2]}, 'swapped iff choice')
        check_pt(E, ex, st, fn, ex.load(st, args[1]), 'E1ext', {'Q': sub(1, ds[2]), 'P': ds[2]}, 'swapped iff choice')

@guarded
def edw_torque(E):
    ex, st, r, args, ds = run_pt(E, 'e_torque')
    check_pt(E, ex, st, 'e_torque', r, 'E1ext', {'P': 1, TORSION: 1}, 'P + (0,-1)')

@guarded
def edw_torsion_free(E):
    ex, st, r, args, ds = run_pt(E, 'e_is_torsion_free')
    E.obl('e_is_torsion_free', 'true exactly when [l]P is the identity', pred_is(ex, r, 'eq', {'P': ELL}), r)

@guarded
def edw_mul(E, fn):
    ex, st, r, args, ds = run_pt(E, fn)
    i = 0 if isinstance(ds[0], str) else 1
    nm = 'PQ'[i]; V = ds[1 - i]
    if 'assign' in fn: r = ex.load(st, args[0])
    check_pt(E, ex, st, fn, r, 'E1ext', {nm: V}, 'result represents [s]P for every curve point P and every 448-bit s')

@guarded
def edw_smod4(E):
    ex, st, r, args, ds = run_pt(E, 'e_smod4')
    check_pt(E, ex, st, 'e_smod4', r, 'E1ext', {'P': mod2k(ds[1], 2)}, 'result represents [s mod 4]P')

TW = {'t_double': '8P', 't_add': '4P+4Q', 't_sub': '4P-4Q', 't_addx': '4P+4Q', 't_addn': '4P+4Q', 't_niels_rt': '4P', 't_neg': '-4P', 'e_iso_rt': '4P', 'e_affine_rt': 'P'}
@guarded
def tw_eq(E):
    for fn, co in (('t_eq', {('phi', 'P'): 1, ('phi', 'Q'): -1}), ('t_xeq', {('phi', 'P'): 1, ('phi', 'Q'): -1}), ('t_neq', {('phi', 'P'): 1, ('phi', 'Q'): -1}), ('t_torque_eq', {('phi', 'P'): 1, TORSION: 1, ('phi', 'Q'): -1})):
        if E.prog.root('vharness::' + fn) is None: continue
        ex, st, r, args, ds = run_pt(E, fn)
        E.obl(fn, 'true exactly when both are the same point of the twisted curve', pred_is(ex, r, 'eq', co, 0, E2), r)

@guarded
def tw_cond(E, fn):
    ex, st, r, args, ds = run_pt(E, fn)
    if fn == 't_nneg': co, w = {'P': sub(4, mul(8, ds[1]))}, '4P, negated iff the choice is 1'
    elif fn in ('t_default', 't_ndefault'): co, w = {'P': 4}, 'adding the default value changes nothing'
    else: co, w = {'P': mul(4, sub(1, ds[2])), 'Q': mul(4, ds[2])}, '4P for choice 0, 4Q for choice 1'
    check_pt(E, ex, st, fn, r, 'E1ext', co, w)

DEC = {'d_add_rr': 'P+Q', 'd_add_vv': 'P+Q', 'd_sub_rr': 'P-Q', 'd_sub_vv': 'P-Q', 'd_sub_m': 'P-Q', 'd_neg_r': '-P', 'd_neg_v': '-P'}
@guarded
def dec_op(E, fn, spec):
    ex, st, r, args, ds = run_pt(E, fn)
    check_pt(E, ex, st, fn, r.f[0], 'E2ext', COMB[spec], f'result represents {spec}')
@guarded
def dec_mul(E, fn):
    ex, st, r, args, ds = run_pt(E, fn)
    i = 0 if isinstance(ds[0], str) else 1
    check_pt(E, ex, st, fn, r.f[0], 'E2ext', {'PQ'[i]: ds[1 - i]}, 'result represents [s]P for every 448-bit s')
@guarded
def dec_consts(E):
    ex, st, r, args, ds = run_pt(E, 'd_identity')
    check_pt(E, ex, st, 'd_identity', r.f[0], 'E2ext', {}, 'the identity')
    ex, st, r, args, ds = run_pt(E, 'd_generator')
    v = ex.abs_kind(E.kinds.by_name['E2ext'], r.f[0])
    ok = isinstance(v, PointV) and len(v.co) == 1
    p = next(iter(v.co))[1] if ok else None
    E.obl('d_generator', 'a valid representation of a point of 2E', ok, r)
    E.obl('d_generator', 'order l or 2l (a generator of the quotient group)', ok and E2.mul(2 * ELL, p) == (0, 1) and E2.mul(2, p) != (0, 1))
    E.obl('d_generator', 'limb invariant', ok and all(lo >= a and hi <= b for c in v.b for (lo, hi), (a, b) in zip(c, E.inv)))
@guarded
def dec_equals(E):
    ex, st, r, args, ds = run_pt(E, 'd_equals')
    E.obl('d_equals', 'true exactly when P - Q is in {identity, (0,-1)}', pred_is(ex, r, 'eqtors', {'P': 1, 'Q': -1}, 0, E2), r)

# ================================================================ Montgomery
def raw_of(ex, q, ids):
    return q.same(ex.raw_value(ids))
@guarded
def mont_mul(E, fn):
    ex, st, r, args, ds = run_pt(E, fn)
    i = 0 if isinstance(ds[0], Agg) else 1
    u, V = ds[i], ds[1 - i]
    e = ex.lookup_enc(r.f[0].f)
    ok = e is not None and e[0] == 'enc' and len(ex.montco) >= 1
    if not ok: return E.obl(fn, 'result is the encoding of an affine ladder value', False, r)
    hit = None
    for m, at in ex.montco:
        n = at['U'] * at['W'].pow(PP - 2)
        if e[1].same(n): hit = m
    E.obl(fn, 'result = canonical bytes of U * W^(p-2)', hit is not None, e)
    if hit is None: return
    ids = tuple(next(iter(x.p))[0] for x in u.f[0].f)
    q = ex.raw_value(ids)
    E.obl(fn, '448 ladder steps over the decoded u-coordinate', hit.level == 448 and hit.base == ('u', tuple(q.f.items())), hit)
    E.obl(fn, 'ladder index = value of the scalar: RFC 7748 scalar multiplication for every 448-bit scalar and every u', prove(('zero', ex.unname(P(sub(hit.idx, V))), None), st.facts))

@guarded
def mont_low(E):
    idx = E.root('m_is_low_order')
    def body(ctx, ex, st):
        b = E.bytes(56)
        o = ex.call_inst(st, idx, [Ref(ex.new_cell(st, Agg([b])))]); E.log.absorb(ex, 'm_is_low_order')
        if len(o) != 1: return E.obl('m_is_low_order', 'single outcome', False)
        r = ex.resolve(o[0][2])
        q = ex.raw_value(tuple(next(iter(x.p))[0] for x in b.f))
        low = q.is_zero() or (q - ctx.const(1)).is_zero() or (q + ctx.const(1)).is_zero()
        E.obl('m_is_low_order', 'true exactly when u mod p is 0, 1 or -1, canonical encoding or not', r == int(low), ctx.trace)
    with VarScope(): fe_run(E, body)

@guarded
def mont_misc(E):
    ex, st = gx(E)
    o = ex.call_inst(st, E.root('m_generator'), [])
    E.obl('m_generator', 'u = 5', o[0][2] == Agg([Agg([5] + [0] * 55)]) or E.ty.flat(o[0][2]) == [5] + [0] * 55)
    b = E.bytes(56)
    o = ex.call_inst(st, E.root('m_as_bytes'), [Ref(ex.new_cell(st, Agg([b])))])
    E.obl('m_as_bytes', 'the stored bytes', [P(x) for x in E.ty.flat(o[0][2])] == [P(x) for x in b.f])
    r = Ref(ex.new_cell(st, Agg([b])))
    o = ex.call_inst(st, E.root('m_zeroize'), [r])
    E.obl('m_zeroize', 'all bytes become 0', E.ty.flat(ex.load(o[0][1], r)) == [0] * 56)
    E.log.absorb(ex, 'mont_misc')

@guarded
def bytes_eq(E, fn, n):
    """equality of encodings = equality of all bytes"""
    for fn in (fn,):
        for same in (False, True):
            with VarScope():
                ex = Exec(E.prog); st = State()
                a = E.bytes(int(n), 'a'); b = a if same else E.bytes(int(n), 'b')
                o = ex.call_inst(st, E.root(fn), [Ref(ex.new_cell(st, Agg([a]))), Ref(ex.new_cell(st, Agg([b])))])
                E.log.absorb(ex, fn)
                r = o[0][2]; r = r.f[0] if isinstance(r, Agg) else r
                if same: E.obl(fn, 'true on equal bytes', r == 1 if iscon(r) else prove(('range', P(r), 1, 1), o[0][1].facts))
                else:
                    st2 = ex.assume(o[0][1].fork(), r, 1) if isinstance(r, Sym) else None
                    E.obl(fn, 'true only if every byte is equal', st2 is not None and prove(('zero', P(sub(lv(a.f, 8), lv(b.f, 8))), None), st2.facts))

def curve_point(ctx, S):
    """generic point of the curve, with the curve equation as 1 - y^2 = x^2 (1 - d y^2) and the
    lemma 1 - d y^2 != 0 (d is a nonsquare)"""
    p = S.point(E1, 'P')
    one = ctx.const(1)
    den = (one - ctx.const(D1) * p.y * p.y).norm()
    ctx.hints.append(den.expand())
    if p.x.is_zero():
        ctx.add_rule(((next(iter(p.y.f))[1], 2),), {(): 1})
        return p
    num = (one - p.y * p.y).norm()
    (kn, _), = num.f.items(); (kd, _), = den.f.items()
    ctx.alias[kn] = (pow(num.c, -1, PP) * den.c % PP, {next(iter(p.x.f)): 2, kd: 1})
    return p

@guarded
def edw_to_mont(E):
    idx = E.root('e_to_montgomery')
    def body(ctx, ex, st):
        S = Setup(ctx)
        p = curve_point(ctx, S)
        v, _ = E.kinds.build(E.kinds.by_name['E1ext'], S, p, 'P', (E.inv,) * 4)
        o = ex.call_inst(st, idx, [Ref(ex.new_cell(st, v))]); E.log.absorb(ex, 'e_to_montgomery')
        e = ex.lookup_enc(o[0][2].f[0].f)
        ok = len(o) == 1 and e is not None and e[0] in ('enc', 'const')
        q = (e[1] if e[0] == 'enc' else ctx.const(e[1])) if ok else None
        if not ok: return E.obl('e_to_montgomery', 'canonical encoding', False, e)
        if p.x.is_zero(): E.obl('e_to_montgomery', 'u = 0 for x = 0 (identity and (0,-1))', q.is_zero(), q)
        else: E.obl('e_to_montgomery', 'u = y^2 / x^2, canonically encoded', (q * p.x * p.x).same(p.y * p.y), q)
    fe_run(E, body)

# ================================================================ Edwards compression
@guarded
def edw_compress(E):
    idx = E.root('e_compress')
    def body(ctx, ex, st):
        S = Setup(ctx)
        p = S.point(E1, 'P')
        v, _ = E.kinds.build(E.kinds.by_name['E1ext'], S, p, 'P', (E.inv,) * 4)
        o = ex.call_inst(st, idx, [Ref(ex.new_cell(st, v))]); E.log.absorb(ex, 'e_compress')
        bs = o[0][2].f[0].f
        E.obl('e_compress', '57 bytes', len(o) == 1 and len(bs) == 57)
        e = ex.lookup_enc(bs[:56])
        ok = e is not None and e[0] in ('enc', 'const')
        q = (e[1] if e[0] == 'enc' else ctx.const(e[1])) if ok else None
        E.obl('e_compress', 'first 56 bytes: the canonical encoding of y', ok and q.same(p.y), e)
        E.obl('e_compress', 'last byte: parity of canonical x in the top bit, other bits zero', ex.resolve(bs[56]) == 128 * p.x.neg_bit(), bs[56])
    fe_run(E, body)

def edw_point_result(E, ex, ctx, where, v, cond=''):
    """the Agg v is a valid representation of a curve point: returns (x, y) as Q"""
    d = dict(zip(E.kinds.by_name['E1ext'].fields, [ex.fe_value(x) for x in v.f]))
    X, Y, Z, T = (d[k][0] for k in 'XYZT')
    nz = E.pc.silent(ctx, lambda: not Z.is_zero())
    E.obl(where, 'Z != 0 and XY = ZT' + cond, nz and (X * Y).same(Z * T))
    E.obl(where, 'on the curve' + cond, (X * X + Y * Y).same(Z * Z + ctx.const(D1) * T * T))
    E.obl(where, 'limb invariant', all(a >= lo and b <= hi for x in d.values() for (a, b), (lo, hi) in zip(x[1], E.inv)))
    return X, Y, Z

@guarded
def edw_decompress(E):
    idx = E.root('e_decompress')
    def body(ctx, ex, st):
        y = None
        b = E.bytes(57)
        ids = tuple(next(iter(x.p))[0] for x in b.f[:56])
        y = ex.raw_value(ids)
        one = ctx.const(1)
        # lemma: 1 - d y^2 != 0 since d is a nonsquare
        den = one - ctx.const(D1) * y * y
        ctx.hints = [den.norm().expand()]
        sign = []
        def hook(ex_, st_):
            pass
        top = fresh(0, 1, 'top'); low = fresh(0, 127, 'low')
        b = Agg(b.f[:56] + (add(mul(128, top), low),)) if isinstance(b.f, tuple) else Agg(list(b.f[:56]) + [add(mul(128, top), low)])
        tid = next(iter(top.p))[0]
        def ask(name='sign bit'):
            if 'sign' not in ex.free: ex.free['sign'] = int(ctx.ask('input', 'sign bit'))
            return ex.free['sign']
        ex.tags[tid] = ask
        o = ex.call_inst(st, idx, [Ref(ex.new_cell(st, Agg([b])))]); E.log.absorb(ex, 'e_decompress')
        if len(o) != 1: return E.obl('e_decompress', 'single outcome', False)
        r = o[0][2]
        if isinstance(r, Ite): r = ex.force(o[0][1], r)
        # specification: u = 1 - y^2, v = 1 - d y^2; a point with this y exists iff u v is zero or a square
        u = one - y * y
        uz = u.is_zero()
        w = (u * den).norm()
        exists = True
        if not uz:
            x = 1
            for k, e in w.f.items():
                if e % 2: x *= ctx.chi_base(k)
            if chi(w.c) < 0: x = -x
            exists = x == 1
        if r.v == 0: return E.obl('e_decompress', 'None only if no curve point has this y', not exists, ctx.trace)
        E.obl('e_decompress', 'Some only if a curve point has this y', exists, ctx.trace)
        X, Y, Z = edw_point_result(E, ex, ctx, 'e_decompress', r.f[0])
        E.obl('e_decompress', 'y-coordinate is the decoded y', Y.same(y * Z))
        xq = X * Z.inv()
        if uz: E.obl('e_decompress', 'x = 0 where y^2 = 1', xq.is_zero())
        else: E.obl('e_decompress', 'parity of x is the sign bit', xq.neg_bit() == ask(), ctx.trace)
    fe_run(E, body)

@guarded
def edw_roundtrip(E):
    """decompress(compress(P)) = P"""
    i, j = E.root('e_compress'), E.root('e_decompress')
    def body(ctx, ex, st):
        S = Setup(ctx)
        p = curve_point(ctx, S)
        v, _ = E.kinds.build(E.kinds.by_name['E1ext'], S, p, 'P', (E.inv,) * 4)
        o = ex.call_inst(st, i, [Ref(ex.new_cell(st, v))])
        c = o[0][2]
        o = ex.call_inst(o[0][1], j, [Ref(ex.new_cell(o[0][1], c))]); E.log.absorb(ex, 'e_compress/e_decompress')
        if len(o) != 1: return E.obl('roundtrip', 'single outcome', False)
        r = o[0][2]
        if isinstance(r, Ite): r = ex.force(o[0][1], r)
        E.obl('roundtrip', 'decompress(compress(P)) is Some', r.v == 1, ctx.trace)
        if r.v != 1: return
        d = dict(zip(E.kinds.by_name['E1ext'].fields, [ex.fe_value(x)[0] for x in r.f[0].f]))
        E.obl('roundtrip', 'same affine point', d['X'].same(p.x * d['Z']) and d['Y'].same(p.y * d['Z']), ctx.trace)
    fe_run(E, body)
