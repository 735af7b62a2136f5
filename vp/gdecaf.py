"""Decaf encoding and decoding.

Lemma (lemmas.decaf_param): the points of 2E (the even points of the twisted curve,
the domain of the decaf group) are exactly (x, y) = (-2t/(1-t^2), (1+t^2)/A) with
A^2 = v(t) = (1-t^2)^2 - 4 d t^2, A != 0, 1-t^2 != 0.

Specification of the encoding of the class {P, P + (0,-1)}: the canonical bytes of the
s in {t, -t, 1/t, -1/t} that is even and has FACTOR * x*y*(1-s^2)/(1+s^2) even (s = 0
for the class of the identity)."""
from goals import *

FACTOR = 0x22d962fbeb24f7683bf68d722fa26aa0a1f1a7b8a5b8d54b64a2d780968c14ba839a66f4fd6eded260337bf6aa20ce529642ef0f45572736

def param_point(ctx, S):
    """generic point of 2E: (dict of Q: t, A, x, y, num/den forms), None t for the two points with x = 0"""
    t, A = ctx.atom('t'), ctx.atom('A', True)
    ctx.add_rule(((A, 2),), {(): 1, ((t, 2),): (-2 - 4 * D2) % PP, ((t, 4),): 1})
    tq, Aq, one = ctx.of_atom(t), ctx.of_atom(A), ctx.const(1)
    tt = tq * tq
    S.assign[t] = 0
    for q in (one - tt, one + tt): ctx.hints.append(q.norm().expand())
    v = ctx.frompoly({(): 1, ((t, 2),): (-2 - 4 * D2) % PP, ((t, 4),): 1})
    (k, _), = v.f.items()
    ctx.alias[k] = (pow(v.c, -1, PP), {('a', A): 2})
    ctx.bases[k] = ctx.bases.get(k)
    if tq.is_zero():
        sgn = 1 if ctx.ask('input', 'y = 1') else -1
        return dict(t=None, x=ctx.const(0), y=ctx.const(sgn), u=one, A=one)
    # (1+t^2+A)(1+t^2-A) = 4 (1+d) t^2, so both factors are nonzero and the second is 4 (1+d) t^2 over the first
    L, M = (one + tt + Aq).norm(), (one + tt - Aq).norm()
    (kl, _), = L.f.items(); (km, _), = M.f.items()
    assert ctx.frompoly(ctx.pmul(L.expand(), M.expand())).same(tt * (4 * (1 + D2)))
    ctx.nonzero.add(kl); ctx.nonzero.add(km)
    ctx.alias[km] = (4 * (1 + D2) * pow(L.c * M.c, -1, PP) % PP, {('a', t): 2, kl: -1})
    return dict(t=tq, A=Aq, u=one - tt, w=one + tt, x=tq * (-2) * (one - tt).inv(), y=(one + tt) * Aq.inv())

def param_rep(E, ctx, S, p, name):
    z = S.scale('z' + name)
    if p['t'] is None: d = dict(X=ctx.const(0), Y=p['y'] * z, Z=z, T=ctx.const(0))
    else:
        t, A, u, w = p['t'], p['A'], p['u'], p['w']
        d = dict(X=t * A * z * (-2), Y=u * w * z, Z=u * A * z, T=t * w * z * (-2))
    k = E.kinds.by_name['E2ext']
    return Agg([Agg([FEV(d[f], E.inv) for f in k.fields])])

def enc_value(ex, ctx, bs):
    e = ex.lookup_enc(bs)
    if e is None or e[0] not in ('enc', 'const'): return None
    return e[1] if e[0] == 'enc' else ctx.const(e[1])

def sign_ok(ctx, s, x, y):
    """FACTOR * x y (1-s^2)/(1+s^2) is even"""
    one = ctx.const(1); ss = s * s
    return (ctx.const(FACTOR) * x * y * (one - ss) * (one + ss).inv()).neg_bit() == 0

@guarded
def dec_encode(E):
    idx = E.root('d_compress'); fn = 'd_compress'
    def body(ctx, ex, st):
        S = Setup(ctx); p = param_point(ctx, S)
        o = ex.call_inst(st, idx, [Ref(ex.new_cell(st, param_rep(E, ctx, S, p, 'P')))]); E.log.absorb(ex, fn)
        if len(o) != 1: return E.obl(fn, 'single outcome', False)
        s = enc_value(ex, ctx, o[0][2].f[0].f)
        if s is None: return E.obl(fn, 'canonical 56-byte encoding', False, o[0][2])
        if p['t'] is None: return E.obl(fn, 'the class of the identity is encoded as 0', s.is_zero(), s)
        t = p['t']; one = ctx.const(1)
        a, b = (s * s).same(t * t), (s * s * t * t).same(one)
        E.obl(fn, 's is one of t, -t, 1/t, -1/t', a or b, s)
        E.obl(fn, 's is even', s.neg_bit() == 0, ctx.trace)
        E.obl(fn, 'FACTOR x y (1-s^2)/(1+s^2) is even', (a or b) and sign_ok(ctx, s, p['x'], p['y']), ctx.trace)
    fe_run(E, body)

def decode_raw(E, ctx, ex, st):
    b = E.bytes(56)
    ids = tuple(next(iter(x.p))[0] for x in b.f)
    s = ex.raw_value(ids)
    o = ex.call_inst(st, E.root('d_decompress'), [Ref(ex.new_cell(st, Agg([b])))]); E.log.absorb(ex, 'd_decompress')
    if len(o) != 1: raise Mismatch('several outcomes')
    r = o[0][2]
    if isinstance(r, Ite): r = ex.force(o[0][1], r)
    return b, ids, s, o[0][1], r

@guarded
def dec_decode(E):
    fn = 'd_decompress'
    def body(ctx, ex, st):
        b, ids, s, st, r = decode_raw(E, ctx, ex, st)
        one = ctx.const(1); ss = s * s; u = one - ss
        ctx.hints = [(one + ss).norm().expand()]          # -1 is a nonsquare
        v = u * u - ss * (4 * D2)
        why = ''
        if not ex.canon_bit(ids): valid = False; why = 'not canonical'
        elif s.neg_bit(): valid = False; why = 'odd'
        elif u.is_zero(): valid = False; why = 's = +-1'
        elif v.is_zero(): valid = False; why = 'v = 0'
        else:
            x = 1; n = v.norm()
            for k, e in n.f.items():
                if e % 2: x *= ctx.chi_base(k)
            if chi(n.c) < 0: x = -x
            valid = x == 1; why = 'v(s) square' if valid else 'v(s) nonsquare'
        if r.v == 0: return E.obl(fn, 'rejected only if non-canonical, odd, +-1 or v(s) a nonsquare', not valid, ctx.trace)
        E.obl(fn, 'accepted only if canonical, even, not +-1 and v(s) a nonzero square', valid, f'{why} {ctx.trace}')
        if not valid: return
        k = E.kinds.by_name['E2ext']
        d = dict(zip(k.fields, [ex.fe_value(x) for x in r.f[0].f[0].f]))
        X, Y, Z, T = (d[c][0] for c in 'XYZT')
        nz = E.pc.silent(ctx, lambda: not Z.is_zero())
        E.obl(fn, 'Z != 0 and XY = ZT', nz and (X * Y).same(Z * T))
        E.obl(fn, 'result on the twisted curve', (Y * Y - X * X).same(Z * Z + ctx.const(D2) * T * T), ctx.trace)
        E.obl(fn, 'result is a point of 2E: (1 + x^2)(1-s^2)^2 = (1+s^2)^2', ((Z * Z + X * X) * u * u).same((one + ss) * (one + ss) * Z * Z))
        E.obl(fn, 'x = +-2s/(1-s^2)', (X * X * u * u).same(ss * 4 * Z * Z))
        E.obl(fn, 'y^2 v(s) = (1+s^2)^2', (Y * Y * v).same((one + ss) * (one + ss) * Z * Z), ctx.trace)
        E.obl(fn, 'limb invariant', all(a >= lo and b <= hi for q in d.values() for (a, b), (lo, hi) in zip(q[1], E.inv)))
        E.obl(fn, 'sign choice: FACTOR x y (1-s^2)/(1+s^2) is even', s.is_zero() or sign_ok(ctx, s, X * Z.inv(), Y * Z.inv()), ctx.trace)
    fe_run(E, body)

@guarded
def dec_point_rt(E):
    """decompress(compress(P)) represents the class of P; compress does not depend on the representative"""
    i, j = E.root('d_compress'), E.root('d_decompress')
    def body(ctx, ex, st):
        S = Setup(ctx); p = param_point(ctx, S)
        o = ex.call_inst(st, i, [Ref(ex.new_cell(st, param_rep(E, ctx, S, p, 'P')))]); E.log.absorb(ex, 'd_compress')
        st = o[0][1]; c = o[0][2]
        q = dict(p, y=-p['y']) if p['t'] is None else dict(p, t=-p['t'], A=-p['A'])
        o2 = ex.call_inst(st, i, [Ref(ex.new_cell(st, param_rep(E, ctx, S, q, 'Q')))]); E.log.absorb(ex, 'd_compress')
        st = o2[0][1]
        s1, s2 = enc_value(ex, ctx, c.f[0].f), enc_value(ex, ctx, o2[0][2].f[0].f)
        E.obl('class', 'compress(P) = compress(P + (0,-1)), whatever the projective representations', s1 is not None and s2 is not None and (s1 - s2).is_zero(), ctx.trace)
        o = ex.call_inst(st, j, [Ref(ex.new_cell(st, c))]); E.log.absorb(ex, 'd_decompress')
        if len(o) != 1: return E.obl('roundtrip', 'single outcome', False)
        r = o[0][2]
        if isinstance(r, Ite): r = ex.force(o[0][1], r)
        E.obl('roundtrip', 'decompress(compress(P)) is Some', r.v == 1, ctx.trace)
        if r.v != 1: return
        d = dict(zip(E.kinds.by_name['E2ext'].fields, [ex.fe_value(x)[0] for x in r.f[0].f[0].f]))
        eq = lambda e: (d['X'] - p['x'] * d['Z'] * e).is_zero() and (d['Y'] - p['y'] * d['Z'] * e).is_zero()
        E.obl('roundtrip', 'decompress(compress(P)) is P or P + (0,-1)', eq(1) or eq(-1), ctx.trace)
    fe_run(E, body)

@guarded
def dec_misc(E):
    """encodings handed out as bytes, and the encoding of the identity"""
    for fn in ('d_cidentity', 'r_cidentity'):
        ex = Exec(E.prog); st = State()
        o = ex.call_inst(st, E.root(fn), []); E.log.absorb(ex, fn)
        E.obl(fn, '56 zero bytes', len(o) == 1 and E.ty.flat(o[0][2]) == [0] * 56)
    for fn in ('d_as_bytes', 'r_as_bytes'):
        with VarScope():
            ex = Exec(E.prog); st = State(); b = E.bytes(56)
            o = ex.call_inst(st, E.root(fn), [Ref(ex.new_cell(st, Agg([b])))]); E.log.absorb(ex, fn)
            r = o[0][2]; s = o[0][1]
            v = [ex.load(s, Ref(r.cell, r.path + ((r.start or 0) + i,))) for i in range(r.n if r.n is not None else 56)] if isinstance(r, Ref) else []
            E.obl(fn, 'exactly the 56 stored bytes', len(o) == 1 and [P(x) for x in v] == [P(x) for x in b.f], r)

@guarded
def mont_proj_rt(E):
    """to_projective then to_affine: the canonical encoding of u mod p"""
    idx = E.root('m_proj_rt')
    def body(ctx, ex, st):
        b = E.bytes(56)
        o = ex.call_inst(st, idx, [Ref(ex.new_cell(st, Agg([b])))]); E.log.absorb(ex, 'm_proj_rt')
        q = ex.raw_value(tuple(next(iter(x.p))[0] for x in b.f))
        e = ex.lookup_enc(o[0][2].f[0].f)
        v = None if e is None else e[1] if e[0] == 'enc' else ctx.const(e[1])
        E.obl('m_proj_rt', 'canonical encoding of u mod p', len(o) == 1 and v is not None and v.same(q), e)
    fe_run(E, body)
