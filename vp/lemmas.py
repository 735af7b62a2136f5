"""The mathematical facts the contracts rest on, as obligations of their own.

Nothing here depends on the code under verification: the facts are about the two
curves, the isogenies and the two primes.  Each is discharged by exact polynomial
arithmetic (fq: normal forms modulo the curve equations), by exact evaluation of
quadratic characters, or by a primality certificate that is checked here."""
from goals import *

ELLM = ELL
# ---------------------------------------------------------------- primality (Pocklington; Brillhart, Lehmer, Selfridge 1975, theorem 5)
def isqrt(n):
    from math import isqrt as f
    return f(n)
def small_prime(n):
    if n < 2: return False
    i = 2
    while i * i <= n:
        if n % i == 0: return False
        i += 1
    return True

# n -> primes q dividing n - 1 (each < 10^7 or certified here too)
CERTS = {
 PP: [2, 641, 18287, 196687, 1466449, 2916841, 6700417, 1469495262398780123809, 167773885276849215533569, 596242599987116128415063, 37414057161322375957408148834323969],
 1469495262398780123809: [2, 3, 7, 223, 411743, 3402277943], 3402277943: [2, 7, 151, 1609403],
 167773885276849215533569: [2, 3, 7, 2531, 97859369123353], 97859369123353: [2, 3, 67, 197, 271, 379979],
 596242599987116128415063: [2, 37, 223, 36131535570665139281], 36131535570665139281: [2, 5, 13, 34741861125639557],
 34741861125639557: [2, 7, 31, 463, 1764234391], 1764234391: [2, 3, 5, 271, 217003],
 37414057161322375957408148834323969: [2, 3, 7, 36753053, 1255525949, 25136521679249], 1255525949: [2, 2683, 116989],
 342682509629: [2, 17, 6577, 766223], 117022176685990080317952907: [2, 3, 13, 709, 7529, 412051, 682085888357],
 682085888357: [2, 170521472089], 170521472089: [2, 3, 11, 31, 113, 61463], 40426179255361943: [2, 7, 107, 167, 23085345191], 23085345191: [2, 5, 34819, 66301],
 25136521679249: [2, 7, 32061889897], 32061889897: [2, 3, 1335912079], 1335912079: [2, 3, 19, 31, 61, 6197],
}
def certify(n, done):
    """n is prime, by the factors of n - 1 listed in CERTS"""
    from math import gcd
    if n < 10**9: return small_prime(n)
    if n in done: return done[n]
    done[n] = False
    qs = CERTS.get(n)
    if not qs: return False
    F, R = 1, n - 1
    for q in qs:
        if R % q or not certify(q, done): return False
        while R % q == 0: R //= q; F *= q
    if gcd(F, R) != 1: return False
    for q in qs:
        for a in range(2, 400):
            if pow(a, n - 1, n) != 1: return False
            if gcd(pow(a, (n - 1) // q, n) - 1, n) == 1: break
        else: return False
    if F * F <= n:
        # theorem 5: every prime factor of n is 1 mod F; with R = 2Fs + r, 0 < r < 2F, n is prime
        # if n < (F+1)(2F^2 + (r-1)F + 1) and (s = 0 or r^2 - 8s is no square)
        s, r = divmod(R, 2 * F)
        if F % 2 or R % 2 == 0 or r < 1 or not n < (F + 1) * (2 * F * F + (r - 1) * F + 1): return False
        t = r * r - 8 * s
        if s and t >= 0 and isqrt(t) ** 2 == t: return False
    done[n] = True
    return True

# primes dividing l - 1 and l + 1
ELL_M1 = [2, 3, 19, 97, 227393, 3009341, 342682509629]
ELL_P1 = [2, 5, 40426179255361943, 117022176685990080317952907]
def certify_both(n, m1, p1, done):
    """n is prime, by factors of n - 1 and of n + 1 (the combined theorem of Brillhart, Lehmer and Selfridge).

    For a prime r | n: the conditions on n - 1 give r = 1 mod F1.  The conditions on n + 1, all for the
    one discriminant D = P^2 - 4Q with (D/n) = -1, give F2 | r - (D/r).  So r = 1 or r = n modulo
    G = lcm(F1, F2); with G > sqrt(n) the smallest prime divisor would be 1 or n mod G."""
    from math import gcd, lcm
    from sympy import jacobi_symbol
    def part(R, qs):
        F = 1
        for q in qs:
            if R % q or not certify(q, done): return None
            while R % q == 0: R //= q; F *= q
        return F
    F1, F2 = part(n - 1, m1), part(n + 1, p1)
    if not F1 or not F2 or n % 2 == 0: return False
    for q in m1:
        for a in range(2, 400):
            if pow(a, n - 1, n) != 1: return False
            if gcd(pow(a, (n - 1) // q, n) - 1, n) == 1: break
        else: return False
    D = next(d for d in range(5, 400) if jacobi_symbol(d, n) == -1)
    def U(P, Q, k):
        # U_k of the Lucas sequence: z^k = (V_k + U_k sqrt D)/2 for z = (P + sqrt D)/2, computed in Z/n[z]/(z^2 - P z + Q)
        a, b = 1, 0                                              # a + b z
        for bit in bin(k)[2:]:
            a, b = (a * a - b * b * Q) % n, (2 * a * b + b * b * P) % n
            if bit == '1': a, b = (-b * Q) % n, (a + b * P) % n
        return b                                                 # z^k = U_k z - Q U_(k-1)
    for q in p1:
        for P in range(1, 400):
            Q = (P * P - D) * pow(4, -1, n) % n
            if gcd(Q, n) != 1: continue
            if U(P, Q, n + 1): return False
            if gcd(U(P, Q, (n + 1) // q), n) == 1: break
        else: return False
    G = lcm(F1, F2)
    if G <= isqrt(n) + 1: return False
    r = n % G
    return r == 1 or n % r != 0 or r == 0

@guarded
def lemma_primes(E):
    done = {}
    E.obl('lemma', 'p = 2^448 - 2^224 - 1 is prime (certificate checked)', PP == 2**448 - 2**224 - 1 and certify(PP, done))
    E.obl('lemma', 'l = 2^446 - 0x8335dc16...a7bb0d is prime (certificate checked)', certify_both(ELL, ELL_M1, ELL_P1, done))
    E.log.lemmas['p and l are prime'] = f'certificates over {len(done)} primes, recursively'

# ---------------------------------------------------------------- quadratic characters
@guarded
def lemma_characters(E):
    """by Euler's criterion, p being prime"""
    for what, a, x in (('-1', -1, -1), ('d1 = -39081', D1, -1), ('d2 = -39082', D2, 1), ('1 - d1 = 39082', 39082, -1), ('1 + d2 = -39081', 1 + D2, -1)):
        E.obl('lemma', f'chi({what}) = {x:+d}', chi(a) == x)
    E.obl('lemma', 'd2 = d1 - 1', (D1 - 1 - D2) % PP == 0)

# ---------------------------------------------------------------- polynomial identities
class PX:
    """polynomials over F_p in named unknowns (exact), modulo nothing"""
    def __init__(self): self.c = Ctx(PP)
    def var(self, n): return {((self.c.atom(n), 1),): 1}
    def k(self, n): return {(): n % PP} if n % PP else {}
    def add(self, *ps):
        r = {}
        for p in ps: r = self.c.padd(r, p)
        return r
    def sub(self, a, b): return self.c.padd(a, b, -1)
    def mul(self, *ps):
        r = {(): 1}
        for p in ps: r = self.c.pmul(r, p)
        return r
class Po:
    """a polynomial with operators"""
    def __init__(self, X, p): self.X, self.p = X, p
    def _o(self, o): return o.p if isinstance(o, Po) else self.X.k(o)
    def __add__(self, o): return Po(self.X, self.X.add(self.p, self._o(o)))
    __radd__ = __add__
    def __sub__(self, o): return Po(self.X, self.X.sub(self.p, self._o(o)))
    def __rsub__(self, o): return Po(self.X, self.X.sub(self._o(o), self.p))
    def __mul__(self, o): return Po(self.X, self.X.mul(self.p, self._o(o)))
    __rmul__ = __mul__
    def __neg__(self): return 0 - self
    def __pow__(self, e): return Po(self.X, self.X.mul(*[self.p] * e))
    def zero(self): return not self.p
def polys(names):
    X = PX()
    return [Po(X, X.var(n)) for n in names.split()]

@guarded
def lemma_complete_e1(E):
    """1 +- d x1 x2 y1 y2 != 0 on x^2 + y^2 = 1 + d x^2 y^2 (Bernstein, Lange): with e = d x1x2y1y2 = +-1,
    (x1 +- e y1)^2 = d (x1 y1 (x2 +- y2))^2; x1 y1 != 0 as e != 0, and x2 + y2, x2 - y2 are not both 0; so d would be a square"""
    x1, y1, x2, y2, e, d = polys('x1 y1 x2 y2 e d')
    C = lambda x, y: x**2 + y**2 - 1 - d * x**2 * y**2
    T = d * x1 * x2 * y1 * y2
    for s in (1, -1):
        lhs = (x1 + s * e * y1)**2 - d * (x1 * y1 * (x2 + s * y2))**2
        # explicit member of the ideal (C1, C2, T - e, e^2 - 1)
        rhs = C(x1, y1) + (e**2 - 1) * y1**2 + (1 - T * T) + 2 * s * x1 * y1 * (e - T) - d * x1**2 * y1**2 * C(x2, y2)
        E.obl('lemma', f'identity behind completeness of E1 (sign {s:+d})', (lhs - rhs).zero())
        # 1 - T^2 = (1 - e^2) + (e - T)(e + T)
        E.obl('lemma', '1 - T^2 in the ideal', (1 - T * T - (1 - e * e) - (e - T) * (e + T)).zero())
    E.obl('lemma', 'd1 is a nonsquare', chi(D1) == -1)
    # x^2 + y^2 != 0: x^2 + y^2 = 0 would make y = 0 = x (as -1 is a nonsquare), but (0,0) is not on the curve
    E.obl('lemma', 'x^2 + y^2 != 0 on E1: -1 is a nonsquare and (0,0) is not on E1', chi(-1) == -1 and not E1.on((0, 0)))
    # y^2 - x^2 != 0: y^2 = x^2 gives d x^4 - 2 x^2 + 1 = 0, i.e. (d x^2 - 1)^2 = 1 - d
    x, d = polys('x d')
    E.obl('lemma', 'y^2 = x^2 on E1 gives (d x^2 - 1)^2 = 1 - d, a nonsquare', (d * (2 * x**2 - 1 - d * x**4) + (d * x**2 - 1)**2 - (1 - d)).zero() and chi(1 - D1) == -1)
    # 1 - d y^2 != 0
    E.obl('lemma', '1 - d y^2 != 0 for all y: d is a nonsquare', chi(D1) == -1)
    # 2 - x^2 - y^2 = 1 - d x^2 y^2 != 0 by completeness for (P, P)

@guarded
def lemma_complete_e2(E):
    """-x^2 + y^2 = 1 + d2 x^2 y^2, on the points with chi(1 + x^2) = +1 (the domain D)"""
    x1, y1, x2, y2, d = polys('x1 y1 x2 y2 d')
    C = lambda x, y: y**2 - x**2 - 1 - d * x**2 * y**2
    X1, X2 = x1**2, x2**2
    # y^2 (1 - d x^2) = 1 + x^2 on the curve; 1 + x^2 != 0 always, so y != 0, 1 - d x^2 != 0, chi(1 - d x^2) = chi(1 + x^2)
    E.obl('lemma', 'y^2 (1 - d x^2) - (1 + x^2) = curve equation', (y1**2 * (1 - d * X1) - (1 + X1) - C(x1, y1)).zero())
    E.obl('lemma', '1 + x^2 != 0 for all x: -1 is a nonsquare', chi(-1) == -1)
    # if (d x1x2y1y2)^2 = 1:  d^2 X1 X2 (1+X1)(1+X2) = (1-dX1)(1-dX2)  <=>  (d X1 X2 + 1)(d (1+X1)(1+X2) - (1+d)) = 0
    lhs = d * d * X1 * X2 * (1 + X1) * (1 + X2) - (1 - d * X1) * (1 - d * X2)
    E.obl('lemma', 'factorisation behind completeness of E2', (lhs - (d * X1 * X2 + 1) * (d * (1 + X1) * (1 + X2) - (1 + d))).zero())
    E.obl('lemma', 'd x1^2 x2^2 = -1 impossible: d2 a square, -1 a nonsquare', chi(D2) == 1 and chi(-1) == -1)
    E.obl('lemma', 'd (1+x1^2)(1+x2^2) = 1 + d impossible on D: the left side is a square, 1 + d2 a nonsquare', chi(D2) == 1 and chi(1 + D2) == -1)
    # closure of D: 1 - d x3^2 = (1 - d x1^2 y2^2)(1 - d x2^2 y1^2) / (1 + t)^2, and each factor is W / e_i
    t = d * x1 * x2 * y1 * y2
    E.obl('lemma', '(1+t)^2 - d (x1y2 + x2y1)^2 = (1 - d x1^2 y2^2)(1 - d x2^2 y1^2)', ((1 + t)**2 - d * (x1 * y2 + x2 * y1)**2 - (1 - d * X1 * y2**2) * (1 - d * X2 * y1**2)).zero())
    W = 1 - d * (X1 + X2 + X1 * X2)
    E.obl('lemma', '(1 - d x1^2 y2^2)(1 - d x2^2) = W - d x1^2 C2', ((1 - d * X1 * y2**2) * (1 - d * X2) - W + d * X1 * C(x2, y2)).zero())
    E.obl('lemma', '(1 - d x2^2 y1^2)(1 - d x1^2) = W - d x2^2 C1', ((1 - d * X2 * y1**2) * (1 - d * X1) - W + d * X2 * C(x1, y1)).zero())
    E.log.lemmas['D closed under addition'] = 'chi(1 + x3^2) = chi(1 - d x3^2) = chi(W^2 / (e1 e2)) = chi(e1) chi(e2) = 1'
    # x^2 + y^2 != 0 (-1 nonsquare, (0,0) not on E2); y^2 - x^2 = 1 + d x^2 y^2 != 0 and 2 - y^2 + x^2 = 1 - d x^2 y^2 != 0 by completeness for (P, P)
    E.obl('lemma', '(0,0) not on E2', not E2.on((0, 0)))
    E.obl('lemma', 'y^2 - x^2 = 1 + d x^2 y^2 on E2', (y1**2 - X1 - (1 + d * X1 * y1**2) - C(x1, y1)).zero())
    E.obl('lemma', 'the identity and (0,-1) are in D', E2.dom((0, 1)) and E2.dom((0, PP - 1)))

# ---------------------------------------------------------------- group law and isogenies
def gen(n, cus, name='P'):
    ctx = Ctx(PP); S = Setup(ctx)
    return ctx, S, [S.point(cu, name + str(i)) for i, cu in enumerate(cus)]
def eqp(a, b): return a.x.same(b.x) and a.y.same(b.y)
def onc(ctx, p): return (ctx.const(p.cu.a) * p.x * p.x + p.y * p.y).same(ctx.const(1) + ctx.const(p.cu.d) * p.x * p.x * p.y * p.y)
def hint(ctx, *qs):
    for q in qs:
        q = q.norm()
        if q.f: ctx.hints.append(Q(ctx, q.c, {k: e for k, e in q.f.items() if e > 0}).expand())

@guarded
def lemma_group(E):
    """closure, commutativity, neutral element, inverse, associativity"""
    for cu in (E1, E2):
        ctx, S, (p, q) = gen(2, [cu] * 2)
        r = q_add(p, q)
        E.obl('lemma', f'{cu.name}: the sum of two points is on the curve', onc(ctx, r))
        E.obl('lemma', f'{cu.name}: P + Q = Q + P', eqp(r, q_add(q, p)))
        E.obl('lemma', f'{cu.name}: P + (0,1) = P', eqp(q_add(p, q_id(ctx, cu)), p))
        E.obl('lemma', f'{cu.name}: P + (-P) = (0,1)', eqp(q_add(p, q_neg(p)), q_id(ctx, cu)))
        E.obl('lemma', f'{cu.name}: (0,-1) is on the curve and P + (0,-1) = (-x,-y)', cu.on((0, PP - 1)) and eqp(q_add(p, SPt(cu, ctx.const(0), ctx.const(-1))), SPt(cu, -p.x, -p.y)))
G1 = (0x4f1970c66bed0ded221d15a622bf36da9e146570470f1767ea6de324a3d3a46412ae1af72ab66511433b80e18b00938e2626a82bc70cc05e, 0x693f46716eb6bc248876203756c9c7624bea73736ca3984087789c1e05a0c2d73ad3ff1ce67c39c4fdbd132c4ed7c8ad9808795bf230fa14)
@guarded
def lemma_order(E):
    """#E1(F_p) = 4 l: the base point has prime order l, and the Hasse interval contains one multiple of l"""
    E.obl('lemma', 'the base point is on E1 and has order l', E1.on(G1) and E1.mul(ELL, G1) == (0, 1) and G1 != (0, 1))
    w = 2 * (isqrt(PP) + 1)
    E.obl('lemma', '4 l is the only multiple of l in the Hasse interval [p + 1 - 2 sqrt p, p + 1 + 2 sqrt p]', 2 * w < ELL and PP + 1 - w <= 4 * ELL <= PP + 1 + w and all(not PP + 1 - w <= k * ELL <= PP + 1 + w for k in (3, 5)))
    E.log.lemmas['#E1(F_p) = 4 l'] = 'with the theorem of Hasse; E1 is complete, so its affine points are the whole group'
@guarded
def lemma_assoc(E, name):
    cu = dict(E1=E1, E2=E2)[name]
    x1, y1, x2, y2, x3, y3 = None, None, None, None, None, None
    ctx, S, (p, q, r) = gen(3, [cu] * 3)
    # denominators cleared: P+Q = (A/B, C/D), (P+Q)+R = ((A y3 D + C x3 B) / (BD + d A C x3 y3), ...)
    one = ctx.const(1)
    def nd(p, q):
        t = ctx.const(cu.d) * p.x * q.x * p.y * q.y
        return (p.x * q.y + p.y * q.x).norm().expand(), (one + t).norm().expand(), (p.y * q.y - ctx.const(cu.a) * p.x * q.x).norm().expand(), (one - t).norm().expand()
    M, A_ = ctx.pmul, ctx.padd
    def addnd(s, r):
        A, B, C, D = s; x, y = r.x.norm().expand(), r.y.norm().expand()
        BD = M(B, D); t = M(M(A, C), M(x, y)); t = {m: c * cu.d % PP for m, c in t.items()}
        yn = A_(M(M(C, B), y), M(M(A, D), x), -cu.a if cu.a == 1 else 1)
        return A_(M(M(A, D), y), M(M(C, B), x)), A_(BD, t), yn, A_(BD, t, -1)
    L = addnd(nd(p, q), r); R = addnd(nd(q, r), p)
    E.obl('lemma', f'{name}: (P+Q)+R = P+(Q+R), x-coordinate (cross-multiplied numerators equal modulo the curve equations)', M(L[0], R[1]) == M(R[0], L[1]))
    E.obl('lemma', f'{name}: (P+Q)+R = P+(Q+R), y-coordinate', M(L[2], R[3]) == M(R[2], L[3]))

@guarded
def lemma_isogeny(E):
    """phi: E1 -> E2, psi: E2 -> E1 homomorphisms with psi phi = [4], phi psi = [4], and (0,-1) in both kernels"""
    ctx, S, (p,) = gen(1, [E1])
    f = q_phi(p)
    E.obl('lemma', 'phi(P) is on E2', onc(ctx, f))
    uu, vv = p.x * p.x, p.y * p.y
    E.obl('lemma', 'phi(P) is in D: 1 + x^2 = ((v^2+u^2)/(v^2-u^2))^2', (ctx.const(1) + f.x * f.x).same(((vv + uu) * (vv - uu).inv()).pow(2)))
    hint(ctx, f.y * f.y + f.x * f.x, ctx.const(2) - f.y * f.y + f.x * f.x)
    E.obl('lemma', 'psi(phi(P)) = 4P', eqp(q_psi(f), q_mul4(ctx, p)))
    ctx, S, (p,) = gen(1, [E2])
    f = q_psi(p)
    E.obl('lemma', 'psi(P) is on E1', onc(ctx, f))
    hint(ctx, f.y * f.y - f.x * f.x, ctx.const(2) - f.y * f.y - f.x * f.x)
    E.obl('lemma', 'phi(psi(P)) = 4P', eqp(q_phi(f), q_mul4(ctx, p)))
    for g, n in ((phi, 'phi'), (psi, 'psi')):
        E.obl('lemma', f'{n}(0,1) = {n}(0,-1) = (0,1)', g((0, 1)) == (0, 1) == g((0, PP - 1)))
def q_mul4(ctx, p):
    d = q_add(p, p)
    t = ctx.const(p.cu.d) * d.x * d.x * d.y * d.y
    hint(ctx, ctx.const(1) + t, ctx.const(1) - t)          # completeness for (2P, 2P)
    return q_add(d, d)
@guarded
def lemma_hom(E, name):
    cu, f = dict(phi=(E1, q_phi), psi=(E2, q_psi))[name]
    ctx, S, (p, q) = gen(2, [cu] * 2)
    s = q_add(p, q)
    if name == 'phi': hint(ctx, s.y * s.y - s.x * s.x, ctx.const(2) - s.y * s.y - s.x * s.x)
    else: hint(ctx, s.y * s.y + s.x * s.x, ctx.const(2) - s.y * s.y + s.x * s.x)
    a, b = f(p), f(q)
    t = ctx.const(a.cu.d) * a.x * b.x * a.y * b.y
    hint(ctx, ctx.const(1) + t, ctx.const(1) - t)
    E.obl('lemma', f'{name}(P + Q) = {name}(P) + {name}(Q)', eqp(f(s), q_add(a, b)))

# ---------------------------------------------------------------- decaf
@guarded
def lemma_decaf(E):
    """parametrisation of D by (t, A) and uniqueness of the encoding (see gdecaf)"""
    x, y, t, c, d, s = polys('x y t c d s')
    C = y**2 - x**2 - 1 - d * x**2 * y**2
    v = (1 - t**2)**2 - 4 * d * t**2
    K = x * (1 - t**2) + 2 * t                                   # K = 0  <=>  x = -2t/(1-t^2)
    # a point of D with x != 0: 1 + x^2 = c^2, t = (1+c)/x, that is s = x t with s = 1 + c
    E.obl('lemma', 't = (1+c)/x solves x (1-t^2) = -2t where c^2 = 1 + x^2', (x**2 - (1 + c)**2 + 2 * (1 + c) - (1 + x**2 - c**2)).zero())
    # 1 - t^2 = 0 would give t = 0; then 1 - t^2 = 1
    E.obl('lemma', '1 + t^2 != 0: -1 is a nonsquare', chi(-1) == -1)
    E.obl('lemma', '(1-t^2)^2 (1+x^2) = (1+t^2)^2 modulo K', ((1 - t**2)**2 * (1 + x**2) - (1 + t**2)**2 - K * (x * (1 - t**2) - 2 * t)).zero())
    E.obl('lemma', '(1-t^2)^2 (1 - d x^2) = v(t) modulo K', ((1 - t**2)**2 * (1 - d * x**2) - v + d * K * (x * (1 - t**2) - 2 * t)).zero())
    E.obl('lemma', 'y^2 (1 - d x^2) = 1 + x^2 on E2, hence y^2 v(t) = (1+t^2)^2 and A = (1+t^2)/y has A^2 = v(t) != 0', (y**2 * (1 - d * x**2) - (1 + x**2) - C).zero())
    E.log.lemmas['decaf parametrisation'] = 'D = {(-2t/(1-t^2), (1+t^2)/A): A^2 = v(t)}; conversely such points satisfy the curve equation and chi(1+x^2) = +1 by the same identities'
    # the other root of K is -1/t; (0,-1) negates x and y: the class of P has s in {t, -1/t, -t, 1/t}
    E.obl('lemma', 't^2 K(-1/t) = -K(t): -1/t is the other root', (x * (t**2 - 1) - 2 * t + K).zero())
    # sign of x y (1-s^2)/(1+s^2): invariant under s -> -s, negated under s -> 1/s, not 0
    E.obl('lemma', '(1-s^-2)(1+s^2) = -(1-s^2)(1+s^-2), times s^2', ((s**2 - 1) * (1 + s**2) + (1 - s**2) * (s**2 + 1)).zero())
    E.obl('lemma', '(1+t^2)^2 - v(t) = 4 (1+d) t^2', ((1 + t**2)**2 - v - 4 * (1 + d) * t**2).zero() and (1 + D2) % PP != 0)
    E.log.lemmas['uniqueness of the encoding'] = 'x, y, 1-s^2 != 0: exactly one of the pairs {t,-t}, {1/t,-1/t} has the even value, and exactly one of s, -s (s != 0, p odd) is even; so compress(decompress(b)) = b follows from the goals dec_decode and dec_encode'
    # equality of classes
    ctx, S, (p, q) = gen(2, [E2, E2])
    r = q_add(p, q_neg(q))
    tt = ctx.const(D2) * p.x * q.x * p.y * q.y
    E.obl('lemma', 'P - Q has x-coordinate (x1 y2 - y1 x2)/(1 - t)', (r.x * (ctx.const(1) - tt)).same(p.x * q.y - p.y * q.x))
    E.obl('lemma', 'x = 0 on E2 only for (0,1) and (0,-1): C(0, y) = (y-1)(y+1)', ((y**2 - 1) - (y - 1) * (y + 1)).zero())

