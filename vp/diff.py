"""Search for a failing input once an obligation has failed: the compiled real code
(native/) against a big-integer reference, on inputs biased to the boundaries.
It never decides a property: it only supplies the replay of a failed obligation."""
import random, subprocess, os, sys, time, threading
PP = 2**448 - 2**224 - 1
ELL = 2**446 - 0x8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d
D1, D2 = -39081 % PP, -39082 % PP
FACTOR = 0x22d962fbeb24f7683bf68d722fa26aa0a1f1a7b8a5b8d54b64a2d780968c14ba839a66f4fd6eded260337bf6aa20ce529642ef0f45572736
def inv(a): return pow(a, PP - 2, PP)
def chi(a): return 0 if a % PP == 0 else 1 if pow(a, (PP - 1) // 2, PP) == 1 else -1
def msqrt(a):
    r = pow(a, (PP + 1) // 4, PP)
    return r if r * r % PP == a % PP else None
class Cu:
    def __init__(s, a, d): s.a, s.d = a, d
    def ext(s, P): return (P[0], P[1], 1, P[0] * P[1] % PP)
    def eadd(s, P, Q):
        X1, Y1, Z1, T1 = P; X2, Y2, Z2, T2 = Q
        A = X1 * X2; B = Y1 * Y2; C = s.d * T1 * T2 % PP; D = Z1 * Z2
        E = ((X1 + Y1) * (X2 + Y2) - A - B) % PP; F = (D - C) % PP; G = (D + C) % PP; H = (B - s.a * A) % PP
        return (E * F % PP, G * H % PP, F * G % PP, E * H % PP)
    def aff(s, P):
        z = inv(P[2]); return (P[0] * z % PP, P[1] * z % PP)
    def add(s, P, Q): return s.aff(s.eadd(s.ext(P), s.ext(Q)))
    def neg(s, P): return (-P[0] % PP, P[1])
    def mul(s, k, P):
        if k < 0: k, P = -k, s.neg(P)
        r = (0, 1, 1, 0); e = s.ext(P)
        for b in bin(k)[2:]:
            r = s.eadd(r, r)
            if b == '1': r = s.eadd(r, e)
        return s.aff(r)
    def on(s, P): return (s.a * P[0] ** 2 + P[1] ** 2 - 1 - s.d * P[0] ** 2 * P[1] ** 2) % PP == 0
E1, E2 = Cu(1, D1), Cu(-1 % PP, D2)
G1 = (0x4f1970c66bed0ded221d15a622bf36da9e146570470f1767ea6de324a3d3a46412ae1af72ab66511433b80e18b00938e2626a82bc70cc05e, 0x693f46716eb6bc248876203756c9c7624bea73736ca3984087789c1e05a0c2d73ad3ff1ce67c39c4fdbd132c4ed7c8ad9808795bf230fa14)
def phi(P):
    x, y = P
    return (2 * x * y * inv(y * y - x * x) % PP, (y * y + x * x) * inv(2 - y * y - x * x) % PP)
B2 = phi(G1)
TOR1 = [(0, 1), (0, PP - 1), (1, 0), (PP - 1, 0)]
TAU = (0, PP - 1)
def compress(P): return (P[1] | ((P[0] & 1) << 455)).to_bytes(57, 'little')
def decompress(bs):
    y = int.from_bytes(bs[:56], 'little') % PP; s = bs[56] >> 7
    u, v = (1 - y * y) % PP, (1 - D1 * y * y) % PP
    x = msqrt(u * inv(v) % PP)
    if x is None: return None
    if (x & 1) != s: x = -x % PP
    return (x, y)
def dec_encode(P):
    x, y = P
    if x == 0: return 0
    r = msqrt(1 + x * x)
    for t in ((1 + r) * inv(x) % PP, (1 - r) * inv(x) % PP):
        for s in (t, -t % PP):
            if s & 1: continue
            if (FACTOR * x * y * (1 - s * s) * inv(1 + s * s) % PP) & 1: continue
            return s
    raise AssertionError
def dec_decode(bs):
    s = int.from_bytes(bs, 'little')
    if s >= PP or s & 1: return None
    u = (1 - s * s) % PP; v = (u * u - 4 * D2 * s * s) % PP
    if u == 0 or chi(v) != 1: return None
    if s == 0: return (0, 1)
    x = 2 * s * inv(u) % PP; y = (1 + s * s) * inv(msqrt(v)) % PP
    if (FACTOR * x * y * u * inv(1 + s * s) % PP) & 1: x = -x % PP
    return (x, y)
def ladder(u, k):
    """RFC 7748 section 5 step function over all 448 bits (no clamping)"""
    x1, x2, z2, x3, z3, sw = u % PP, 1, 0, u % PP, 1, 0
    for t in reversed(range(448)):
        kt = k >> t & 1; sw ^= kt
        if sw: x2, x3, z2, z3 = x3, x2, z3, z2
        sw = kt
        A = x2 + z2; AA = A * A % PP; B = x2 - z2; BB = B * B % PP; E = AA - BB; C = x3 + z3; D = x3 - z3
        DA = D * A; CB = C * B
        x3 = (DA + CB) ** 2 % PP; z3 = x1 * (DA - CB) ** 2 % PP; x2 = AA * BB % PP; z2 = E * (AA + 39081 * E) % PP
    if sw: x2, z2 = x3, z3
    return x2 * inv(z2) % PP

# ---------------------------------------------------------------- inputs
class Gen:
    def __init__(self, backend, hook, seed):
        self.be, self.hook = backend, hook; self.R = random.Random(seed)
        self.nl, self.w = (8, 56) if backend == 'fiat' else (16, 28)
        self.hi = 2**56 if backend == 'fiat' else 2**28 + 2**9
        self.cache1 = []; self.cache2 = []; self.n = 0
    def fval(self):
        R = self.R
        k = R.randrange(12)
        if k == 0: return R.choice((0, 1, 2, PP - 1, PP - 2, (PP - 1) // 2, (PP + 1) // 2, 39081, PP - 39081))
        if k == 1: return (1 << R.randrange(448)) % PP
        if k == 2: return (PP - (1 << R.randrange(448))) % PP
        if k == 3: return sum(R.choice((0, (1 << self.w) - 1, 1, R.getrandbits(self.w))) << (self.w * i) for i in range(self.nl)) % PP
        if k == 4: return sum(R.choice((0, 255)) << (8 * i) for i in range(56)) % PP
        if k == 5: return R.getrandbits(R.choice((8, 16, 32, 64, 128, 224)))
        return R.randrange(PP)
    def limbs(self, v=None):
        """limbs within the invariant; of the value v, possibly in a non-canonical representation"""
        R = self.R; m = (1 << self.w) - 1
        if v is None:
            k = R.randrange(8)
            if k == 0: return [R.choice((0, self.hi)) for _ in range(self.nl)]
            if k == 1: return [R.choice((0, 1, m, m - 1, self.hi, self.hi - 1)) for _ in range(self.nl)]
            if k == 2: return [self.hi] * self.nl
            if k == 3:
                l = self.split(self.fval()); i = R.randrange(self.nl); l[i] = R.choice((0, m, self.hi, self.hi - 1)); return l
            if k == 4:
                l = self.split(PP); i = R.randrange(self.nl); l[i] = min(self.hi, max(0, l[i] + R.choice((-2, -1, 0, 1)))); return l
            if k == 5: return [R.randrange(self.hi + 1) for _ in range(self.nl)]
            return self.alt(self.fval())
        return self.alt(v)
    def split(self, v):
        m = (1 << self.w) - 1
        l = [(v >> (self.w * i)) & m for i in range(self.nl)]
        l[-1] += (v >> (self.w * self.nl)) << self.w
        return l
    def alt(self, v):
        R = self.R
        if R.random() < .3 and v + PP < 2**448: v += PP
        l = self.split(v)
        if R.random() < .5:
            # move carries down: limb i+1 loses one, limb i gains 2^w, if the bound allows
            for i in range(self.nl - 1):
                if l[i + 1] > 0 and l[i] + (1 << self.w) <= self.hi and R.random() < .7: l[i + 1] -= 1; l[i] += 1 << self.w
        return l if max(l) <= self.hi else self.split(v % PP)
    def fstr(self, l): return ','.join(map(str, l))
    def ptE1(self):
        R = self.R
        if self.cache1 and R.random() < .6: return R.choice(self.cache1)
        k = R.randrange(8)
        if k == 0: P = R.choice(TOR1)
        elif k == 1: P = E1.add(E1.mul(R.choice((1, 2, 3, 4, ELL - 1)), G1), R.choice(TOR1))
        elif k == 2:
            P = None
            while P is None: P = decompress(self.fval().to_bytes(56, 'little') + bytes([R.choice((0, 128))]))
        else: P = E1.add(E1.mul(R.randrange(ELL), G1), R.choice(TOR1))
        self.cache1.append(P); return P
    def ptE2(self):
        R = self.R
        if self.cache2 and R.random() < .6: return R.choice(self.cache2)
        k = R.randrange(8)
        if k == 0: P = R.choice(((0, 1), TAU))
        elif k == 1: P = E2.mul(R.choice((1, 2, 3, ELL - 1)), B2)
        elif k == 2:
            P = None
            while P is None: P = dec_decode(self.fval().to_bytes(56, 'little'))
        else: P = E2.mul(R.randrange(ELL), B2)
        if R.random() < .4: P = (-P[0] % PP, -P[1] % PP)
        self.cache2.append(P); return P
    def pstr(self, P):
        R = self.R
        z = R.choice((1, 1, PP - 1, self.fval() or 1, R.randrange(1, PP)))
        return '/'.join(self.fstr(self.limbs(c * z % PP)) for c in (P[0], P[1], 1, P[0] * P[1] % PP))
    def pt(self):
        P = self.ptE1()
        return (self.pstr(P) if self.hook else compress(P).hex()), P
    def dp(self):
        P = self.ptE2()
        return (self.pstr(P) if self.hook else dec_encode(P).to_bytes(56, 'little').hex()), P
    def scalar(self, canonical=False):
        R = self.R; top = ELL if canonical else 2**448
        k = R.randrange(12)
        if k == 0: v = R.choice((0, 1, 2, 3, 4, 7, 8, 15, 16, ELL - 1, ELL - 2, (ELL - 1) // 2, (ELL + 1) // 2))
        elif k == 1: v = R.choice((ELL, ELL + 1, 2 * ELL - 1, 2 * ELL, 3 * ELL, 2**448 - 1, 2**446, 2**446 - 1, 2**447, 4 * ELL, 4 * ELL - 1))
        elif k == 2: v = 1 << R.randrange(448)
        elif k == 3: v = (1 << R.randrange(1, 449)) - 1
        elif k == 4: v = sum(R.choice((0, 2**32 - 1, 1, 2**31)) << (32 * i) for i in range(14))
        elif k == 5: v = sum(R.choice((8, 8, 7, 0, 15)) << (4 * i) for i in range(112))
        elif k == 6: v = abs(ELL - R.getrandbits(R.choice((8, 32, 64, 224))))
        elif k == 7: v = R.getrandbits(R.choice((8, 32, 33, 64, 128)))
        elif k == 8: v = (1 << R.randrange(448)) ^ (1 << R.randrange(448)) ^ R.getrandbits(16)
        else: v = R.randrange(top)
        return v % top
    def b56(self):
        R = self.R; k = R.randrange(6)
        if k == 0: v = R.choice((PP, PP + 1, PP - 1, PP - 2, PP + 2, 0, 1, 2, 2**448 - 1, 2**224, 5))
        elif k == 1: v = PP + R.getrandbits(R.choice((4, 16, 223)))
        elif k == 2: v = sum(R.choice((0, 255, 128, 1)) << (8 * i) for i in range(56))
        else: v = self.fval()
        return (v % 2**448).to_bytes(56, 'little')

def sh(v): return v.to_bytes(56, 'little').hex()
def fv(g, s): return sum(int(x) << (g.w * i) for i, x in enumerate(s.split(',')))
def fbad(g, s): return any(int(x) > g.hi for x in s.split(','))

def show_pt(g, out, cu, P, decaf=False):
    """does the output represent P?"""
    if out in ('PANIC', 'none'): return False
    if g.hook:
        c = out.split('/')
        pass
        X, Y, Z, T = (fv(g, x) % PP for x in c)
        if Z == 0 or (X * Y - Z * T) % PP: return False
        return X == P[0] * Z % PP and Y == P[1] * Z % PP
    if decaf:
        ws = [dec_encode(Q).to_bytes(56, 'little').hex() for Q in (P, E2.add(P, P), E2.add(P, B2))]
    else: ws = [compress(Q).hex() for Q in (P, E1.add(P, P), E1.add(P, G1))]
    return out == ':'.join(ws)

OPS = {}
def op(*names):
    def d(f):
        for n in names: OPS[n] = f
        return f
    return d
# each op: f(g, name) -> (args strings, check(out) -> bool, expected text)
def fe_res(g, v): return lambda o: o != 'PANIC' and fv(g, o) % PP == v % PP
@op('f_add', 'f_sub', 'f_mul')
def _(g, n):
    a, b = g.limbs(), g.limbs(); x, y = fv(g, g.fstr(a)), fv(g, g.fstr(b))
    if g.R.random() < .2: b, y = a, x
    r = {'f_add': x + y, 'f_sub': x - y, 'f_mul': x * y}[n] % PP
    return [g.fstr(a), g.fstr(b)], fe_res(g, r), hex(r)
@op('f_square', 'f_negate', 'f_invert')
def _(g, n):
    a = g.limbs(); x = fv(g, g.fstr(a))
    r = {'f_square': lambda: x * x, 'f_negate': lambda: -x, 'f_invert': lambda: inv(x)}[n]() % PP
    return [g.fstr(a)], fe_res(g, r), hex(r)
@op('f_isr')
def _(g, n):
    a = g.limbs(); x = fv(g, g.fstr(a)); c = chi(x)
    def ck(o):
        if o == 'PANIC': return False
        r, k = o.split(); r = fv(g, r)
        return int(k) == (c == 1) and (r * r * x - c) % PP == 0 and (c or r % PP == 0)
    return [g.fstr(a)], ck, f'square: {c == 1}'
@op('f_sqrt_ratio')
def _(g, n):
    a, b = g.limbs(), g.limbs(); x, y = fv(g, g.fstr(a)), fv(g, g.fstr(b)); c = chi(x * y)
    def ck(o):
        if o == 'PANIC': return False
        r, k = o.split(); r = fv(g, r)
        return int(k) == (c == 1 or x % PP == 0) and (r * r * y - (c * x)) % PP == 0
    return [g.fstr(a), g.fstr(b)], ck, f'{c}'
@op('f_to_bytes')
def _(g, n):
    a = g.limbs(); r = (fv(g, g.fstr(a)) % PP).to_bytes(56, 'little').hex()
    return [g.fstr(a)], lambda o: o == r, r
@op('f_from_bytes')
def _(g, n):
    b = g.b56(); v = int.from_bytes(b, 'little') % PP
    return [b.hex()], fe_res(g, v), hex(v)
@op('f_eq')
def _(g, n):
    a = g.limbs(); x = fv(g, g.fstr(a))
    b = g.limbs(x % PP) if g.R.random() < .5 else g.limbs(); r = str(int((x - fv(g, g.fstr(b))) % PP == 0))
    return [g.fstr(a), g.fstr(b)], lambda o: o == r, r
@op('f_is_zero', 'f_is_negative')
def _(g, n):
    a = g.limbs(); x = fv(g, g.fstr(a)) % PP
    r = str(int(x == 0) if n == 'f_is_zero' else x & 1)
    return [g.fstr(a)], lambda o: o == r, r
@op('f_select')
def _(g, n):
    a, b, c = g.limbs(), g.limbs(), g.R.randrange(2)
    return [g.fstr(a), g.fstr(b), str(c)], fe_res(g, fv(g, g.fstr(b if c else a))), str(c)
@op('f_cneg')
def _(g, n):
    a, c = g.limbs(), g.R.randrange(2); x = fv(g, g.fstr(a))
    return [g.fstr(a), str(c)], fe_res(g, -x if c else x), str(c)
@op('f_chain', 'f_chain_bytes')
def _(g, n):
    # a random composition, in postfix form
    R = g.R; ls = [g.limbs() for _ in range(4)]; vs = [fv(g, g.fstr(l)) % PP for l in ls]
    st, pr = [], ''
    for _ in range(R.randrange(4, 14)):
        c = R.choice('abcd' if len(st) < 2 else 'abcd+-+-*+-')
        if c in 'abcd' and st and R.random() < .25: c = R.choice('sn')
        pr += c
        if c in 'abcd': st.append(vs[ord(c) - 97])
        elif c in 'sn': x = st.pop(); st.append((x * x if c == 's' else -x) % PP)
        else: y = st.pop(); x = st.pop(); st.append((x + y if c == '+' else x - y if c == '-' else x * y) % PP)
    while len(st) > 1:
        c = R.choice('+-*'); pr += c; y = st.pop(); x = st.pop(); st.append((x + y if c == '+' else x - y if c == '-' else x * y) % PP)
    r = st[0]
    if n == 'f_chain': return [pr] + [g.fstr(l) for l in ls], fe_res(g, r), hex(r)
    w = r.to_bytes(56, 'little').hex() + ' ' + str(r & 1)
    return [pr] + [g.fstr(l) for l in ls], lambda o: o == w, w

def eqs(r): return (lambda o: o == r), r
@op('s_add', 's_sub', 's_mul')
def _(g, n):
    a, b = g.scalar(n != 's_mul'), g.scalar(n != 's_mul')
    if n != 's_mul' and g.R.random() < .3: b = (ELL - a + g.R.choice((-1, 0, 1))) % ELL if n == 's_add' else (a + g.R.choice((-1, 0, 1))) % ELL
    r = {'s_add': a + b, 's_sub': a - b, 's_mul': a * b}[n] % ELL
    return [sh(a), sh(b)], *eqs(sh(r))
@op('s_invert', 's_halve')
def _(g, n):
    a = g.scalar(n == 's_halve' and g.R.random() < .7)
    if n == 's_invert': return [sh(a)], *eqs(sh(pow(a, ELL - 2, ELL)))
    return [sh(a)], (lambda o: o != 'PANIC' and (2 * int.from_bytes(bytes.fromhex(o), 'little') - a) % ELL == 0 and (a >= ELL or int.from_bytes(bytes.fromhex(o), 'little') < ELL)), 'a/2 mod l'
@op('s_zero', 's_default')
def _(g, n): return [], *eqs(sh(0))
@op('s_one')
def _(g, n): return [], *eqs(sh(1))
@op('s_from_u32')
def _(g, n):
    a = g.scalar() % 2**32; return [str(a)], *eqs(sh(a))
@op('s_from_bytes', 's_to_bytes')
def _(g, n):
    a = g.scalar(); return [sh(a)], *eqs(sh(a))
@op('s_to_bytes_rfc')
def _(g, n):
    a = g.scalar(); return [sh(a)], *eqs(sh(a) + '00')
@op('s_from_canonical')
def _(g, n):
    R = g.R; k = R.randrange(5)
    if k == 0: v = g.scalar() + (R.choice((0, 1, 128, 255)) << 448)
    elif k == 1: v = ELL + R.choice((-1, 1)) * R.getrandbits(R.choice((1, 4, 32, 64, 224, 440)))
    elif k == 2:
        v = g.scalar(True); i = R.randrange(445, 456); v |= 1 << i
    else: v = g.scalar(k == 3)
    return [v.to_bytes(57, 'little').hex()], *eqs(sh(v) if v < ELL else 'none')
@op('s_bits')
def _(g, n):
    a = g.scalar(); return [sh(a)], *eqs(bin(a)[2:].zfill(448)[::-1])
@op('s_wide')
def _(g, n):
    R = g.R; k = R.randrange(5)
    if k == 0: v = R.getrandbits(912)
    elif k == 1: v = 1 << R.randrange(912)
    elif k == 2: v = (1 << R.randrange(1, 913)) - 1
    elif k == 3: v = sum(R.choice((0, 255)) << (8 * i) for i in range(114))
    else: v = (ELL * R.getrandbits(460) + R.choice((-1, 0, 1))) % 2**912
    return [v.to_bytes(114, 'little').hex()], *eqs(sh(v % ELL))
@op('s_random')
def _(g, n):
    b = bytes(g.R.choice((0, 255, g.R.randrange(256))) for _ in range(114))
    def ck(o):
        if o == 'PANIC': return False
        s, k = o.split(); return int(k) >= 112 and int.from_bytes(bytes.fromhex(s), 'little') == int.from_bytes((b * 3)[:int(k)], 'little') % ELL
    return [b.hex()], ck, hex(int.from_bytes(b, 'little') % ELL)
@op('s_eq', 's_ne', 's_ct_eq')
def _(g, n):
    a = g.scalar(); b = a if g.R.random() < .4 else a ^ (1 << g.R.randrange(448)) if g.R.random() < .6 else g.scalar()
    return [sh(a), sh(b)], *eqs(str(int((a == b) ^ (n == 's_ne'))))

def ptres(g, P): return (lambda o: show_pt(g, o, E1, P)), compress(P).hex()
BIN = {'e_add': 1, 'e_add_rr': 1, 'e_add_vr': 1, 'e_add_rv': 1, 'e_add_vv': 1, 'e_add_assign_r': 1, 'e_add_assign_v': 1, 'e_sub_rr': -1, 'e_sub_vr': -1, 'e_sub_rv': -1, 'e_sub_vv': -1, 'e_sub_assign_r': -1, 'e_sub_assign_v': -1, 't_add': 1, 't_addx': 1, 't_addn': 1, 't_sub': -1}
@op(*BIN)
def _(g, n):
    (a, P), (b, Q) = g.pt(), g.pt()
    k = g.R.random()
    if k < .2: Q = P; b = g.pstr(P) if g.hook else compress(P).hex()
    elif k < .4: Q = E1.neg(P); b = g.pstr(Q) if g.hook else compress(Q).hex()
    elif k < .5: Q = E1.add(P, g.R.choice(TOR1)); b = g.pstr(Q) if g.hook else compress(Q).hex()
    r = E1.add(P, Q if BIN[n] > 0 else E1.neg(Q))
    if n[0] == 't': r = E1.mul(4, r)
    return [a, b], *ptres(g, r)
UN = {'e_neg_r': -1, 'e_neg_v': -1, 'e_negate': -1, 'e_double': 2, 'e_affine_rt': 1, 'e_iso_rt': 4, 't_double': 8, 't_niels_rt': 4, 't_neg': -4}
@op(*UN, 'e_torque')
def _(g, n):
    a, P = g.pt()
    return [a], *ptres(g, E1.mul(UN[n], P) if n in UN else (-P[0] % PP, -P[1] % PP))
@op('e_identity', 'e_default', 'e_generator')
def _(g, n): return [], *ptres(g, G1 if n == 'e_generator' else (0, 1))
@op('e_sum_ref', 'e_sum_val')
def _(g, n):
    v = [g.pt() for _ in range(g.R.randrange(6))]; r = (0, 1)
    for _, P in v: r = E1.add(r, P)
    return [a for a, _ in v], *ptres(g, r)
@op('e_eq', 'e_ne', 'e_ct_eq', 't_eq', 't_xeq', 't_torque_eq', 't_neq')
def _(g, n):
    (a, P), (b, Q) = g.pt(), g.pt(); R = g.R
    k = R.randrange(4)
    if k < 2: Q = P
    elif k == 2: Q = R.choice((E1.neg(P), E1.add(P, R.choice(TOR1)), (P[0], -P[1] % PP), (P[1], P[0])))
    b = g.pstr(Q) if g.hook else compress(Q).hex()
    if n[0] == 'e': r = (P == Q) ^ (n == 'e_ne')
    else:
        x, y = phi(P), phi(Q)
        if n == 't_torque_eq': x = (-x[0] % PP, -x[1] % PP)
        r = x == y
    return [a, b], *eqs(str(int(r)))
@op('t_nselect', 't_select')
def _(g, n):
    (a, P), (b, Q), c = g.pt(), g.pt(), g.R.randrange(2)
    return [a, b, str(c)], *ptres(g, E1.mul(4, Q if c else P))
@op('t_nneg')
def _(g, n):
    (a, P), c = g.pt(), g.R.randrange(2)
    return [a, str(c)], *ptres(g, E1.mul(-4 if c else 4, P))
@op('e_select', 'e_cassign')
def _(g, n):
    (a, P), (b, Q), c = g.pt(), g.pt(), g.R.randrange(2)
    return [a, b, str(c)], *ptres(g, Q if c else P)
@op('e_cswap')
def _(g, n):
    (a, P), (b, Q), c = g.pt(), g.pt(), g.R.randrange(2)
    if c: P, Q = Q, P
    return [a, b, str(c)], (lambda o: o != 'PANIC' and show_pt(g, o.split()[0], E1, P) and show_pt(g, o.split()[1], E1, Q)), 'swap'
@op('e_is_torsion_free')
def _(g, n):
    a, P = g.pt()
    if g.R.random() < .5:
        P = E1.mul(4, P); a = g.pstr(P) if g.hook else compress(P).hex()
    return [a], *eqs(str(int(E1.mul(ELL, P) == (0, 1))))
MULS = ['e_smul', 'e_mul_rr', 'e_mul_vr', 'e_mul_rv', 'e_mul_vv', 'e_lmul_rr', 'e_lmul_vr', 'e_lmul_rv', 'e_lmul_vv', 'e_mul_assign_r', 'e_mul_assign_v']
@op(*MULS, 'e_smod4')
def _(g, n):
    a, P = g.pt(); s = g.scalar()
    return [a, sh(s)], *ptres(g, E1.mul(s % 4 if n == 'e_smod4' else s, P))
@op('e_compress')
def _(g, n):
    a, P = g.pt(); return [a], *eqs(compress(P).hex())
@op('e_decompress')
def _(g, n):
    R = g.R
    if R.random() < .4: b = bytearray(compress(g.ptE1()))
    else: b = bytearray(g.b56() + b'\0')
    b[56] ^= R.choice((0, 128, 128, 1, 64, 255))
    P = decompress(bytes(b))
    if P is not None and P[0] == 0: P = (0, P[1])
    return [bytes(b).hex()], (lambda o: o == 'none' if P is None else show_pt(g, o, E1, P)), 'none' if P is None else compress(P).hex()
@op('e_to_montgomery')
def _(g, n):
    a, (x, y) = g.pt(); u = y * y * inv(x * x) % PP
    return [a], *eqs(u.to_bytes(56, 'little').hex())
@op('m_mul', 'm_lmul')
def _(g, n):
    b = g.b56(); s = g.scalar()
    return [b.hex(), sh(s)], *eqs(ladder(int.from_bytes(b, 'little'), s).to_bytes(56, 'little').hex())
@op('m_generator')
def _(g, n): return [], *eqs('05' + '00' * 55)
@op('m_is_low_order')
def _(g, n):
    b = g.b56(); u = int.from_bytes(b, 'little') % PP
    return [b.hex()], *eqs(str(int(u in (0, 1, PP - 1))))
@op('m_as_bytes')
def _(g, n):
    b = g.b56(); return [b.hex()], *eqs(b.hex())
@op('m_proj_rt')
def _(g, n):
    b = g.b56(); return [b.hex()], *eqs((int.from_bytes(b, 'little') % PP).to_bytes(56, 'little').hex())
@op('m_zeroize')
def _(g, n):
    b = g.b56(); return [b.hex()], *eqs('00' * 56)
@op('m_eq', 'm_ct_eq', 'd_ceq', 'd_ct_ceq')
def _(g, n):
    a = g.b56(); b = bytearray(a)
    if g.R.random() < .6: b[g.R.randrange(56)] ^= 1 << g.R.randrange(8)
    return [a.hex(), bytes(b).hex()], *eqs(str(int(a == bytes(b))))

def dres(g, P): return (lambda o: show_pt(g, o, E2, P, True)), sh(dec_encode(P))
DB = {'d_add_rr': 1, 'd_add_vv': 1, 'd_sub_rr': -1, 'd_sub_vv': -1, 'd_sub_m': -1}
@op(*DB)
def _(g, n):
    (a, P), (b, Q) = g.dp(), g.dp()
    k = g.R.random()
    if k < .4: Q = P if k < .2 else E2.neg(P); b = g.pstr(Q) if g.hook else sh(dec_encode(Q))
    if not g.hook: P, Q = dec_decode(bytes.fromhex(a)), dec_decode(bytes.fromhex(b))
    return [a, b], *dres(g, E2.add(P, Q if DB[n] > 0 else E2.neg(Q)))
@op('d_neg_r', 'd_neg_v')
def _(g, n):
    a, P = g.dp(); return [a], *dres(g, E2.neg(P))
@op('d_mul_rr', 'd_mul_vv', 'd_lmul_rr', 'd_lmul_vv')
def _(g, n):
    a, P = g.dp(); s = g.scalar()
    if not g.hook: P = dec_decode(bytes.fromhex(a))
    return [a, sh(s)], *dres(g, E2.mul(s, P))
@op('d_identity', 'd_generator')
def _(g, n): return [], *dres(g, (0, 1) if n == 'd_identity' else GEN2)
@op('d_cidentity')
def _(g, n): return [], *eqs('00' * 56)
@op('d_equals')
def _(g, n):
    (a, P), (b, Q) = g.dp(), g.dp(); k = g.R.randrange(5)
    if k == 0: Q = P
    elif k == 1: Q = (-P[0] % PP, -P[1] % PP)
    elif k == 2: Q = E2.neg(P)
    elif k == 3: Q = (P[0], -P[1] % PP)
    b = g.pstr(Q) if g.hook else sh(dec_encode(Q))
    return [a, b], *eqs(str(int((P[0] * Q[1] - P[1] * Q[0]) % PP == 0)))
@op('d_compress')
def _(g, n):
    a, P = g.dp(); return [a], *eqs(sh(dec_encode(P)))
@op('d_decompress')
def _(g, n):
    R = g.R; k = R.randrange(6)
    if k < 2: v = dec_encode(g.ptE2())
    elif k == 2: v = PP - dec_encode(g.ptE2())
    elif k == 3: v = int.from_bytes(g.b56(), 'little')
    elif k == 4: v = R.choice((0, 1, PP - 1, PP, PP + 1, 2, PP + dec_encode((0, 1)), 2**448 - 1))
    else:
        v = next(x for x in range(R.randrange(2**200), 2**201) if chi((1 - x * x) ** 2 - 4 * D2 * x * x) == R.choice((1, -1)))
        if R.random() < .5 and v + PP < 2**448: v += PP
    b = (v % 2**448).to_bytes(56, 'little'); P = dec_decode(b)
    def ck(o):
        if P is None: return o == 'none'
        return show_pt(g, o, E2, P, True) or show_pt(g, o, E2, (-P[0] % PP, -P[1] % PP), True)
    return [b.hex()], ck, 'none' if P is None else 'class of ' + hex(P[0])
GEN2 = None   # generator of the decaf group: decoding of the published encoding of the base point
GEN2 = dec_decode(bytes([0x66] * 28 + [0x33] * 28))

# ---------------------------------------------------------------- search
class Native:
    def __init__(self, path):
        self.p = subprocess.Popen([path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    def batch(self, lines, timeout=60):
        t = threading.Timer(timeout, self.p.kill); t.start()
        try:
            def w():
                try: self.p.stdin.write('\n'.join(lines) + '\n\n'); self.p.stdin.flush()
                except (BrokenPipeError, ValueError): pass
            th = threading.Thread(target=w); th.start()
            out = [self.p.stdout.readline().rstrip('\n') for _ in lines]
            th.join(); return out
        finally: t.cancel()
    def close(self): self.p.kill(); self.p.wait()

def search(path, backend, hook, ops, seed, seconds, per=None, stop_first=True, only=None):
    """-> (number of cases, failure dict or None); equal time for every op, growing batches"""
    g = Gen(backend, hook, seed); nat = Native(path); n = 0; t0 = time.time(); bad = []
    ops = [o for o in ops if hook or not o.startswith('f_')]
    try:
        rnd = 0
        while ops and time.time() - t0 < seconds:
            rnd += 1
            for o in ops:
                if rnd > 1 and time.time() - t0 > seconds: break
                k = per or (8 if rnd == 1 else 40)
                if rnd > 2 and (o.startswith(('f_', 's_')) and o != 's_random'): k *= 5
                cs = [OPS[o](g, o) for _ in range(k)]
                outs = nat.batch([' '.join([o] + c[0]) for c in cs])
                for (args, ck, exp), out in zip(cs, outs):
                    n += 1
                    if out.startswith('unknown'): break
                    try: ok = out != '' and out != 'PANIC' and ck(out)
                    except Exception: ok = False
                    if not ok and (only is None or only in out):
                        bad.append(dict(op=o, backend=backend, args=args, expected=exp, got=out or 'process ended', representation_hook=hook))
                        if stop_first: return n, bad
                        break
            if per: break
    finally: nat.close()
    return n, bad

if __name__ == '__main__':
    be, path, hook, secs = sys.argv[1], sys.argv[2], sys.argv[3] == '1', float(sys.argv[4])
    ops = sys.argv[5:] or list(OPS)
    n, bad = search(path, be, hook, ops, 1, secs, stop_first=False)
    print(n, 'cases'); seen = set()
    for b in bad:
        if b['op'] not in seen: seen.add(b['op']); print(str(b)[:400])
