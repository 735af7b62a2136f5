"""Exact integer polynomials with intervals, and the arithmetic prover.

A machine integer is represented by the mathematical integer it denotes: a
Python int, or a Sym = polynomial with integer coefficients over variables that
each have a finite integer range.  Every operation below is exact over Z for
all values of the variables in their ranges (no bound on anything)."""
from fractions import Fraction
import itertools, time
from mir import Unsupported

class Var:
    __slots__ = ('id', 'lo', 'hi', 'kind', 'data', 'name')
    def __init__(self, id, lo, hi, kind, data, name):
        self.id, self.lo, self.hi, self.kind, self.data, self.name = id, lo, hi, kind, data, name

VARS = []
_SPLITS = {}
_CMPS = {}

def reset():
    VARS.clear(); GATES.clear(); _BITS.clear(); _SPLITS.clear(); _CMPS.clear(); STATS.update(queries=0, time=0.0)

STATS = dict(queries=0, time=0.0)

def newvar(lo, hi, kind='in', data=None, name=None):
    v = Var(len(VARS), lo, hi, kind, data, name)
    VARS.append(v)
    return v

# ---------------------------------------------------------------- polynomials
# dict: monomial (sorted tuple of var ids, repetition = power) -> nonzero int
def pconst(c): return {(): c} if c else {}
def pvar(v): return {(v.id,): 1}

def padd(a, b, k=1):
    if len(a) < len(b) and k == 1: a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + k * c
        if s: r[m] = s
        else: r.pop(m, None)
    return r

def pscale(a, k):
    if k == 0: return {}
    if k == 1: return a
    return {m: c * k for m, c in a.items()}

def _mmul(m1, m2):
    """product of monomials -> list of (mono, coef) after v*v normalisation for two-valued variables"""
    if not m1: return ((m2, 1),)
    if not m2: return ((m1, 1),)
    m = tuple(sorted(m1 + m2))
    for i in range(len(m) - 1):
        if m[i] == m[i + 1]:
            v = VARS[m[i]]
            if v.hi - v.lo == 1:
                # v^2 = (2lo+1) v - lo(lo+1)
                out = {}
                lo = v.lo
                rest = m[:i] + m[i + 2:]
                c1, c0 = 2 * lo + 1, -lo * (lo + 1)
                if c1:
                    for mm, cc in _mmul(rest, (v.id,)): out[mm] = out.get(mm, 0) + c1 * cc
                if c0:
                    out[rest] = out.get(rest, 0) + c0
                return tuple(out.items())
    if HASIND[0]:
        for v in m:
            V = VARS[v]
            if V.kind == 'ind' and V.data:
                lead, val, eid = V.data
                if any(w != v and VARS[w].kind == 'ind' and VARS[w].data and VARS[w].data[2] == eid and VARS[w].data[0] == lead for w in m): return ()
                if lead in m:
                    r = list(m); r.remove(lead)
                    return tuple(pmul({tuple(r): 1}, val).items())
    return ((m, 1),)
HASIND = [False]

def pmul(a, b):
    if not a or not b: return {}
    if len(a) == 1 and () in a: return pscale(b, a[()])
    if len(b) == 1 and () in b: return pscale(a, b[()])
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            for m, k in _mmul(m1, m2):
                s = r.get(m, 0) + c1 * c2 * k
                if s: r[m] = s
                else: r.pop(m, None)
    return r

def pvars(p):
    s = set()
    for m in p: s.update(m)
    return s

def psubst(p, vid, q):
    """substitute variable vid by polynomial q"""
    r = {}
    for m, c in p.items():
        if vid not in m:
            s = r.get(m, 0) + c
            if s: r[m] = s
            else: r.pop(m, None)
        else:
            n = m.count(vid)
            t = {tuple(x for x in m if x != vid): c}
            for _ in range(n): t = pmul(t, q)
            r = padd(r, t)
    return r

_ivcache = {}
def miv(m):
    """interval of a monomial"""
    lo, hi = 1, 1
    i = 0
    n = len(m)
    while i < n:
        v = VARS[m[i]]
        j = i
        while j < n and m[j] == m[i]: j += 1
        e = j - i
        a, b = v.lo, v.hi
        if e > 1:
            x, y = a ** e, b ** e
            if e % 2 == 0 and a < 0 < b: a, b = 0, max(x, y)
            else: a, b = min(x, y), max(x, y)
        c = (lo * a, lo * b, hi * a, hi * b)
        lo, hi = min(c), max(c)
        i = j
    return lo, hi

def pinterval(p, env=None):
    lo = hi = 0
    for m, c in p.items():
        if not m: lo += c; hi += c; continue
        if len(m) == 1:
            if env and m[0] in env: a, b = env[m[0]]
            else: v = VARS[m[0]]; a, b = v.lo, v.hi
        else: a, b = miv(m)
        if c > 0: lo += c * a; hi += c * b
        else: lo += c * b; hi += c * a
    return lo, hi

def pcontent(p):
    from math import gcd
    g = 0
    for m, c in p.items():
        if m: g = gcd(g, c)
        if g == 1: return 1
    return g

def pkey(p): return frozenset(p.items())

def peval(p, env):
    """env: var id -> int"""
    t = 0
    for m, c in p.items():
        x = c
        for v in m: x *= env[v]
        t += x
    return t

def pshow(p, n=6):
    out = []
    for m, c in list(p.items())[:n]:
        out.append(f"{c}" + "".join("*" + (VARS[v].name or f"v{v}") for v in m))
    return " + ".join(out) + (" + ..." if len(p) > n else "") if out else "0"

# ---------------------------------------------------------------- symbolic ints
class Sym:
    __slots__ = ('p', 'lo', 'hi')
    def __init__(self, p, lo, hi):
        self.p, self.lo, self.hi = p, lo, hi
    def __repr__(self): return f"Sym({pshow(self.p)} in [{self.lo},{self.hi}])"

def mk(p, lo=None, hi=None):
    if not p: return 0
    if len(p) == 1 and () in p: return p[()]
    a, b = pinterval(p)
    if lo is not None:
        if lo > a: a = lo
        if hi < b: b = hi
    if a == b: return a
    return Sym(p, a, b)

def fresh(lo, hi, name=None, kind='in', data=None):
    return Sym(pvar(newvar(lo, hi, kind, data, name)), lo, hi)

# ---------------------------------------------------------------- values tabulated over a small quantity
class EVar:
    """a quantity with few possible values"""
    __slots__ = ('sym', 'lo', 'hi', 'id', 'ind', 'of')
    def __init__(self, s, lo, hi, id): self.sym, self.lo, self.hi, self.id = s, lo, hi, id; self.ind = {}; self.of = {}
    def indicator(self, i):
        """the 0/1 quantity [x = i], a variable of its own"""
        if i not in self.ind:
            x = P(self.sym)
            lead = next((m[0] for m, c in x.items() if len(m) == 1 and abs(c) == 1 and sum(m[0] in mm for mm in x) == 1), None)
            data = None
            if lead is not None:
                # lead * [x = i] = (i - rest) / sign * [x = i]
                sg = x[(lead,)]; rest = {m: c for m, c in x.items() if m != (lead,)}
                data = (lead, pscale(padd(pconst(i), rest, -1), sg), self.id)
            v = newvar(0, 1, 'ind', data, f'[e{self.id}={i}]'); self.ind[i] = v; self.of[v.id] = i
            HASIND[0] = True
        return self.ind[i]
    def table(self, p):
        """the table of a polynomial over this quantity alone, or None (inverse of EnumV.p)"""
        rest = {m: c for m, c in p.items() if not (len(m) == 1 and m[0] in self.of)}
        ind = {self.of[m[0]]: c for m, c in p.items() if len(m) == 1 and m[0] in self.of}
        x = P(self.sym)
        k = {m: c for m, c in x.items() if m}
        m0 = next(iter(k)); b, r = divmod(rest.get(m0, 0), k[m0])
        if r: return None
        d = padd(rest, x, -b)
        if any(m for m in d): return None
        a = d.get((), 0)
        return [a + b * i + ind.get(i, 0) for i in range(self.lo, self.hi + 1)]

class EnumV(Sym):
    """an integer given as a table over the values lo..hi of an EVar"""
    __slots__ = ('var', 'tab', '_p')
    def __init__(self, var, tab):
        self.var, self.tab, self._p = var, tuple(tab), None
        self.lo, self.hi = min(self.tab), max(self.tab)
    def __repr__(self): return f'Enum({self.tab})'
    @property
    def p(self):
        if self._p is None:
            # every table is  a + b x + sum_{i > 1} c_i [x = i]  in exactly one way
            t = self.tab
            d = t[1] - t[0]
            p = padd(P(mul(d, self.var.sym)), pconst(t[0] - d * self.var.lo))
            for i in range(2, len(t)):
                c = t[i] - t[0] - d * i
                if c: p = padd(p, pvar(self.var.indicator(self.var.lo + i)), c)
            self._p = p
        return self._p

def enum_mk(var, tab):
    tab = tuple(tab)
    if all(x == tab[0] for x in tab): return tab[0]
    return EnumV(var, tab)

def enumable(f):
    import functools
    def g(*a):
        e = None
        for x in a:
            if x.__class__ is EnumV: e = x; break
        if e is None: return f(*a)
        v = e.var; cols = []
        for x in a:
            if x.__class__ is EnumV:
                if x.var is not v: cols = None; break
                cols.append(x.tab)
            elif isinstance(x, Sym):
                t = v.table(x.p)
                if t is not None: cols.append(tuple(t))
                else: cols = None; break
            else: cols.append((x,) * len(e.tab))
        if cols is None:
            return f(*[Sym(x.p, x.lo, x.hi) if x.__class__ is EnumV else x for x in a])
        return enum_mk(v, [f(*t) for t in zip(*cols)])
    return functools.wraps(f)(g)

def P(x): return x.p if isinstance(x, Sym) else pconst(int(x))
def LO(x): return x.lo if isinstance(x, Sym) else int(x)
def HI(x): return x.hi if isinstance(x, Sym) else int(x)
def iscon(x): return not isinstance(x, Sym)

@enumable
def add(a, b):
    if iscon(a) and iscon(b): return a + b
    return mk(padd(P(a), P(b)), LO(a) + LO(b), HI(a) + HI(b))
@enumable
def sub(a, b):
    if iscon(a) and iscon(b): return a - b
    return mk(padd(P(a), P(b), -1), LO(a) - HI(b), HI(a) - LO(b))
@enumable
def mul(a, b):
    if iscon(a) and iscon(b): return a * b
    c = (LO(a) * LO(b), LO(a) * HI(b), HI(a) * LO(b), HI(a) * HI(b))
    return mk(pmul(P(a), P(b)), min(c), max(c))
def neg(a): return sub(0, a)

# ---------------------------------------------------------------- floor division by 2^k
def _symres(c, k):
    m = 1 << k
    r = c & (m - 1)
    if r > m >> 1: r -= m
    return r

def pfloor(p, k, lo=None, hi=None):
    """floor(p / 2^k) as a polynomial (exact), possibly with a fresh split variable."""
    if k == 0: return p
    M = 1 << k
    E, R = {}, {}
    for m, c in p.items():
        r = _symres(c, k)
        if r: R[m] = r
        e = (c - r) >> k
        if e: E[m] = e
    if not R: return E
    c0 = R.pop((), 0)
    if not R:
        q = c0 >> k
        return padd(E, pconst(q))
    if c0: R[()] = c0
    return padd(E, _floorR(R, k))

def _floorR(R, k):
    # strip common powers of two: floor(2^t S + c / 2^k) = floor((S + floor(c/2^t))/2^(k-t))
    t = None
    for m, c in R.items():
        if m:
            z = (c & -c).bit_length() - 1
            t = z if t is None else min(t, z)
            if t == 0: break
    if t and t > 0:
        if t >= k: raise AssertionError
        S = {m: c >> t for m, c in R.items() if m}
        c0 = R.get((), 0) >> t
        if c0: S[()] = c0
        return pfloor(S, k - t)
    a, b = rng(R)
    if (a >> k) == (b >> k): return pconst(a >> k)
    if (a >> k, b >> k) == (-1, 0):
        # the sign of R: one form for every k
        k = max(b.bit_length(), (-a - 1).bit_length())
        if a == -1 and _BITS:
            z = _BITS.get(('zc', pkey(padd(R, pconst(1)))))
            r = pairs_eq(z) if z else None
            if r is not None: return pscale(P(r), -1) if not iscon(r) else pconst(-r)
    # two-valued argument: interpolate
    g = pcontent(R); c0 = R.get((), 0)
    S = {m: c // g for m, c in R.items() if m}
    sa, sb = pinterval(S)
    if sb - sa == 1:
        f0, f1 = (g * sa + c0) >> k, (g * sb + c0) >> k
        return padd(pscale(S, f1 - f0), pconst(f0 - (f1 - f0) * sa))
    # a single variable that is itself a floor: floor(floor(x/2^a)/2^k) = floor(x/2^(a+k)); also (floor(x/2^a)+c)
    vs = [m for m in R if m]
    if len(vs) == 1 and len(vs[0]) == 1 and R[vs[0]] == 1:
        v = VARS[vs[0][0]]
        if v.kind == 'split':
            R2, k2 = v.data
            c0 = R.get((), 0)
            return pfloor(padd(R2, pconst(c0 << k2)), k + k2)
    # a low part that fits below the rest: floor((2^t S + L)/2^k) = floor(S/2^(k-t)) for 0 <= L < 2^t
    if 1 < len(R) <= 40:
        for t in sorted({(c & -c).bit_length() - 1 for m, c in R.items() if m}, reverse=True):
            if not 0 < t < k: continue
            L = {m: c for m, c in R.items() if m and c & ((1 << t) - 1)}
            S = {m: c >> t for m, c in R.items() if m and m not in L}
            c0 = R.get((), 0)
            if c0 & ((1 << t) - 1): L[()] = c0 & ((1 << t) - 1)
            if c0 >> t: S[()] = c0 >> t
            l, h = pinterval(L) if L else (0, 0)
            if l >= 0 and h < 1 << t: return pfloor(S, k - t)
    key = (pkey(R), k)
    v = _SPLITS.get(key)
    if v is None:
        # complement: floor((-1-R)/2^k) = -1 - floor(R/2^k)
        key2 = (pkey(padd(pconst(-1), R, -1)), k)
        w = _SPLITS.get(key2)
        if w is not None: return padd(pconst(-1), pvar(w), -1)
        # the same floor reached through another chain of carries
        E, X, kx = _unchain(R, k)
        keyx = ('x', pkey(X), kx)
        w = _SPLITS.get(keyx)
        if w is not None: return padd(padd(pvar(w[0]), w[1], -1), E)
        v = newvar(a >> k, b >> k, 'split', (R, k))
        _SPLITS[key] = v
        _SPLITS[keyx] = (v, E)
    return pvar(v)

def _unchain(R, k):
    """floor(R/2^k) = E + floor(X/2^kx), with carries of X's own (coefficient 1) written out:
    floor((S + floor(T/2^j))/2^k) = floor((2^j S + T)/2^(k+j))"""
    E = {}
    for _ in range(40):
        X = {}
        for m, c in R.items():
            r = _symres(c, k)
            if r: X[m] = r
            if (c - r) >> k: E = padd(E, {m: (c - r) >> k})
        z = min([(c & -c).bit_length() - 1 for m, c in X.items() if m] or [0])
        if z and z < k:
            X = {m: c >> z for m, c in X.items() if c >> z}; k -= z
        R = X
        if len(R) > 150 or k > 1500: break
        v = max((m[0] for m, c in R.items() if len(m) == 1 and c == 1 and VARS[m[0]].kind == 'split'), default=None)
        if v is None: break
        T, j = VARS[v].data
        S = dict(R); del S[(v,)]
        R = padd(pscale(S, 1 << j), T); k += j
    return E, R, k

def rng(p, effort=0):
    """a sound range of p"""
    return pinterval(p)

@enumable
def shr(a, k):
    if iscon(a): return a >> k
    t = twoval(a)
    if t: return ite(t[2], t[1] >> k, t[0] >> k)
    return mk(pfloor(a.p, k), a.lo >> k, a.hi >> k)

@enumable
def mod2k(a, k):
    """a mod 2^k in [0, 2^k)"""
    M = 1 << k
    if iscon(a): return a & (M - 1)
    if a.lo >= 0 and a.hi < M: return a
    if (a.lo >> k) == (a.hi >> k): return add(a, -((a.lo >> k) << k))
    t = twoval(a)
    if t: return ite(t[2], t[1] & (M - 1), t[0] & (M - 1))
    q = pfloor(a.p, k)
    return mk(padd(a.p, q, -M), 0, M - 1)

@enumable
def wrap(a, w, signed):
    """value of a reduced into the machine type"""
    if signed:
        h = 1 << (w - 1)
        if LO(a) >= -h and HI(a) < h: return a
        return sub(mod2k(add(a, h), w), h)
    return mod2k(a, w)


GATES = {}
_BITS = {}      # bit-operation results that later operations may undo
ONE = {(): 1}
def gate(t):
    """remember a composite 0/1 polynomial: the prover may split cases on it"""
    if iscon(t): return t
    m = [x for x in t.p if x]
    if len(m) > 1:
        k = pkey(t.p)
        if k not in GATES: GATES[k] = t.p
    return t

def twoval(a):
    """if a takes (at most) two values u < v: (u, v, t) with t the 0/1 polynomial, a = u + (v-u) t"""
    if iscon(a): return None
    g = pcontent(a.p)
    c0 = a.p.get((), 0)
    lo = -((c0 - a.lo) // g); hi = (a.hi - c0) // g   # range of S = (p - c0)/g
    if hi - lo == 1:
        S = {m: c // g for m, c in a.p.items() if m}
        t = mk(padd(S, pconst(-lo)), 0, 1)
        return (c0 + g * lo, c0 + g * hi, t)
    if hi == lo: return (c0 + g * lo, c0 + g * lo, 0)
    return None

HAVOC = [0]
def havoc(lo, hi, why):
    HAVOC[0] += 1
    return fresh(lo, hi, kind='havoc', data=why)

def _runs(c):
    """contiguous runs of ones of a nonnegative constant: [(start, len)]"""
    out = []; i = 0
    while c:
        z = (c & -c).bit_length() - 1
        c >>= z; i += z
        n = ((c + 1) & ~c).bit_length() - 1
        out.append((i, n)); c >>= n; i += n
    return out

# values that vanish exactly when a list of pairs is equal (accumulated differences)
EQHOOK = [None]
def zc(x):
    """pairs such that x = 0 iff all of them are equal; None if x is no such value"""
    if iscon(x): return () if x == 0 else None
    if x.__class__ is EnumV: return None
    r = _BITS.get(('zc', pkey(x.p)))
    if r is None and x.lo >= 0 and x.hi <= 1: r = _BITS.get(('oc', pkey(padd(pconst(1), x.p, -1))))
    return r
def oc(x):
    """pairs such that the 0/1 value x is 1 iff all of them are equal"""
    if iscon(x): return () if x == 1 else None
    if x.__class__ is EnumV or x.lo < 0 or x.hi > 1: return None
    return _BITS.get(('oc', pkey(x.p))) or _BITS.get(('zc', pkey(padd(pconst(1), x.p, -1))))
def pairs_eq(ps, hook_only=False):
    """0/1 value: all pairs equal"""
    ps = sorted([(a, b) if not iscon(a) else (b, a) for a, b in ps], key=lambda q: min(pvars(P(q[0])), default=-1))
    xs, ys = tuple(a for a, _ in ps), tuple(b for _, b in ps)
    if EQHOOK[0]:
        r = EQHOOK[0](None, xs, ys)
        if r is not None: return r
    if hook_only or any(LO(v) < 0 for v in xs + ys): return None
    w = max(HI(v) for v in xs + ys).bit_length()
    d = 0
    for i, (u, v) in enumerate(zip(xs, ys)): d = add(d, mul(sub(u, v), 1 << (w * i)))
    return eq0(d)
def allof(a, b):
    """conjunction of two 0/1 values that stand for lists of equal pairs"""
    x, y = oc(a), oc(b)
    z = x + tuple(q for q in y if not any(q is t for t in x))
    r = pairs_eq(z, len(z) < 3)
    if r is None: r = mul(a, b)
    if r.__class__ is Sym: r = mk(r.p, 0, 1); _BITS[('oc', pkey(r.p))] = z
    return r
def note_all(r, ps): _BITS[('oc', pkey(r.p))] = ps
def note_eq(r, a, b):
    """r = [a == b]"""
    if r.__class__ is Sym and a.__class__ is not EnumV and b.__class__ is not EnumV:
        if LO(a) >= 0 and HI(a) <= 1 and LO(b) >= 0 and HI(b) <= 1 and (iscon(a) or iscon(b)): return r
        _BITS.setdefault(('oc', pkey(r.p)), ((a, b),))
    return r

@enumable
def band(a, b, w, signed):
    if a.__class__ is Sym and b.__class__ is Sym and a.lo >= 0 and b.lo >= 0 and a.hi <= 1 and b.hi <= 1:
        x, y = oc(a), oc(b)
        if x and y and a.p != b.p:
            z = x + tuple(q for q in y if not any(q is t for t in x))
            r = pairs_eq(z, len(z) < 3)
            if r is None: r = band0(a, b, w, signed)
            if r.__class__ is Sym: _BITS[('oc', pkey(r.p))] = z
            return r
    return band0(a, b, w, signed)
def band0(a, b, w, signed):
    """bitwise and of two machine integers of width w"""
    if iscon(a) and iscon(b): return a & b
    if iscon(a): a, b = b, a
    if iscon(b):
        if b == 0: return 0
        t = twoval(a)
        if t: return ite(gate(t[2]), t[1] & b, t[0] & b)
        if b == -1 or b == (1 << w) - 1 and not signed: return a
        if b < 0:      # a & b = a - (a & ~b)
            return sub(a, band(a, ~b, w, signed))
        r = 0
        rs = _runs(b)
        if len(rs) > 24: return havoc(0, b, 'and')
        for (i, n) in rs:
            hi = mod2k(a, i + n) if not (not signed and i + n >= w) else a
            r = add(r, sub(hi, mod2k(a, i)) if i else hi)
        if isinstance(r, Sym): r = mk(r.p, 0, min(b, r.hi))
        return r
    if a.p == b.p: return a
    if a.lo >= 0 and b.lo >= 0 and a.hi <= 1 and b.hi <= 1 and padd(a.p, b.p) == {(): 1}: return 0
    for x, y in ((a, b), (b, a)):
        t = twoval(y)
        if t:
            u, v, g = t
            gate(g)
            x0 = band(x, u, w, signed); x1 = band(x, v, w, signed)
            r = ite(g, x1, x0)
            if isinstance(r, Sym) and (u == 0 or v == 0) and not iscon(x1 if u == 0 else x0):
                _BITS[('mask', pkey(r.p))] = (g if u == 0 else sub(1, g), x1 if u == 0 else x0)
            return r
    if a.p == b.p: return a
    # alignment
    for x, y in ((a, b), (b, a)):
        k = min((c & -c).bit_length() - 1 for c in x.p.values())
        if k > 0:
            yh = shr(y, k)
            if iscon(yh) or LO(y) >= 0:
                if yh == 0 and iscon(yh): return 0
                xh = shr(x, k)
                return mul(1 << k, band(xh, yh, w, signed))
    k = ('and', w, signed, frozenset((pkey(a.p), pkey(b.p))))
    if k in _BITS: return _BITS[k]
    r = _BITS[k] = havoc(0 if not signed or a.lo >= 0 or b.lo >= 0 else -(1 << (w - 1)),
                 min(a.hi, b.hi) if a.lo >= 0 and b.lo >= 0 else (a.hi if a.lo >= 0 else b.hi if b.lo >= 0 else (1 << (w - 1)) - 1), 'and')
    return r

@enumable
def bor(a, b, w, signed):
    if a.__class__ is Sym and b.__class__ is Sym and a.lo >= 0 and b.lo >= 0:
        x, y = zc(a), zc(b)
        if x and y and a.p != b.p:
            z = x + tuple(q for q in y if not any(q is t for t in x))
            if a.hi <= 1 and b.hi <= 1:
                r = pairs_eq(z, len(z) < 3)
                if r is not None: r = sub(1, r)
            else: r = None
            if r is None: r = bor0(a, b, w, signed)
            if r.__class__ is Sym and r.hi > 1 and len(z) > 2 and r.lo >= 0 and len(r.p) > 1 and all(LO(v) >= 0 for q in z for v in q):
                # an accumulated difference: only whether it is zero matters
                k = ('or', pkey(r.p))
                if k not in _BITS: _BITS[k] = havoc(r.lo, r.hi, 'accumulated difference')
                r = _BITS[k]
            if r.__class__ is Sym: _BITS[('zc', pkey(r.p))] = z
            return r
    return bor0(a, b, w, signed)
def bor0(a, b, w, signed): return wrapiv(sub(add(a, b), band(a, b, w, signed)), a, b, w, signed)
@enumable
def bxor(a, b, w, signed):
    if not iscon(a) and not iscon(b):
        ka, kb = pkey(a.p), pkey(b.p)
        for x, kx, ky in ((a, ka, kb), (b, kb, ka)):
            for (k1, v1), (k2, v2) in _BITS.get(('xor', ky), ()):
                if kx == k1: return v2          # x ^ (x ^ z) = z
                if kx == k2: return v1
            if not twoval(x):
                m = _BITS.get(('mask', ky))     # x ^ (g ? z : 0)
                if m: return ite(m[0], bxor(x, m[1], w, signed), x)
    r = wrapiv(sub(add(a, b), mul(2, band(a, b, w, signed))), a, b, w, signed)
    if not iscon(a) and not iscon(b) and isinstance(r, Sym):
        _BITS.setdefault(('xor', pkey(r.p)), []).append(((ka, a), (kb, b)))
    if r.__class__ is Sym and a.__class__ is not EnumV and b.__class__ is not EnumV: _BITS.setdefault(('zc', pkey(r.p)), ((a, b),))
    return r
def wrapiv(r, a, b, w, signed):
    if iscon(r): return r
    if LO(a) >= 0 and LO(b) >= 0:
        h = (1 << max(HI(a), HI(b)).bit_length()) - 1
        return mk(r.p, max(r.lo, 0), min(r.hi, h))
    h = 1 << (w - 1)
    return mk(r.p, max(r.lo, -h), min(r.hi, h - 1))

def ite(c, a, b):
    if c.__class__ is EnumV and not (iscon(a) and iscon(b)):
        # a - b tabulated over the same quantity
        d = P(sub(a, b)) if not (a.__class__ is EnumV and b.__class__ is EnumV) else None
        t = c.var.table(d) if d is not None else None
        if t is not None: return add(b, enum_mk(c.var, [x if k else 0 for k, x in zip(c.tab, t)]))
    return ite0(c, a, b)
@enumable
def ite0(c, a, b):
    """c ? a : b for 0/1 polynomial c"""
    if iscon(c): return a if c else b
    if iscon(a) and iscon(b) and a == b: return a
    if P(a) == P(b): return a
    if _BITS and c.__class__ is Sym:
        # a comparison that stops at the first difference
        n = None
        if iscon(a) and not iscon(b):
            if a == 0 and oc(b) and zc(c): n = allof(sub(1, c), b)
            elif a == 1 and zc(b) and zc(c): n = sub(1, allof(sub(1, c), sub(1, b)))
        elif iscon(b) and not iscon(a):
            if b == 0 and oc(a) and oc(c): n = allof(c, a)
            elif b == 1 and zc(a) and oc(c): n = sub(1, allof(c, sub(1, a)))
        if n is not None: return n
    gate(c)
    d = sub(a, b)
    if len(P(d)) * len(c.p) > 3000: return havoc(min(LO(a), LO(b)), max(HI(a), HI(b)), 'choice between many values')
    d = mul(c, d)
    r = add(b, d)
    if iscon(r): return r
    return mk(r.p, min(LO(a), LO(b)), max(HI(a), HI(b)))

@enumable
def lt0(a):
    """[a < 0] as a 0/1 value"""
    if iscon(a): return int(a < 0)
    if a.hi < 0: return 1
    if a.lo >= 0: return 0
    t = twoval(a)
    if t:
        u, v, g = t
        return ite(g, int(v < 0), int(u < 0))
    g = pcontent(a.p); c0 = a.p.get((), 0)
    S = {m: c // g for m, c in a.p.items() if m}
    c = c0 // g      # a < 0  <=>  g S + c0 < 0 <=> S + floor(c0/g) < 0
    if c: S[()] = c
    lo, hi = max(a.lo // g, pinterval(S)[0]), min(a.hi // g, pinterval(S)[1])
    K = max(max(hi, 0).bit_length(), (-lo - 1).bit_length() if lo < 0 else 0)
    return mk(pscale(pfloor(S, K), -1), 0, 1)

@enumable
def eq0(a):
    """[a == 0]"""
    if iscon(a): return int(a == 0)
    if a.lo > 0 or a.hi < 0: return 0
    t = twoval(a)
    if t:
        u, v, g = t
        return ite(g, int(v == 0), int(u == 0))
    z = zc(a) if _BITS else None
    if z:
        r = pairs_eq(z)
        if r is not None: return r
    g = pcontent(a.p); c0 = a.p.get((), 0)
    if c0 % g: return 0
    p = {m: c // g for m, c in a.p.items()}
    if p[min(m for m in p if m)] < 0: p = pscale(p, -1)
    s = mk(p)
    lo, hi = pinterval(p)
    r = lt0(sub(s, 1)) if lo < 0 or hi > 0 else 0
    if lo < 0: r = sub(r, lt0(s))
    if isinstance(r, Sym):
        r = mk(r.p, 0, 1)
    return r

def isbool(a): return LO(a) >= 0 and HI(a) <= 1

# ---------------------------------------------------------------- the prover
class Contradiction(Exception): pass

class Facts:
    """what is known on a path: relational facts lo <= poly <= hi"""
    __slots__ = ('fs', 'sub', 'unf', 'inf', 'gates', 'vers', 'env')
    def __init__(self, fs=(), sub=None):
        self.fs = tuple(fs); self.sub = sub or {}; self.unf = None; self.inf = None; self.gates = frozenset(); self.env = None
    def assume(self, p, lo, hi):
        f = Facts(self.fs + ((p, lo, hi),), self.sub); f.gates = self.gates
        return f
    def fix(self, vid, val):
        s = dict(self.sub); s[vid] = val
        f = Facts(self.fs, s); f.gates = self.gates
        v = VARS[vid]
        if v.kind == 'split':
            R, k = v.data
            return f.assume(R, val << k, ((val + 1) << k) - 1)
        return f

def _sub(p, sub):
    if not sub: return p
    for vid in pvars(p):
        if vid in sub: p = psubst(p, vid, pconst(sub[vid]))
    return p

def _iv(p, sub=None):
    return pinterval(p)

def eliminate(p, sub, upto=None):
    """eliminate split variables newest first.  yields (poly, scale s, slo, shi):
       2^s * original = poly + slack with slack in [slo, shi]"""
    q = _sub(p, sub); s = 0; slo = shi = 0
    yield q, s, slo, shi
    while True:
        cand = [v for v in pvars(q) if VARS[v].kind == 'split' and v not in sub]
        if not cand: return
        vid = max(cand)
        # must occur linearly and alone
        occ = [m for m in q if vid in m]
        if occ != [(vid,)]:
            # try next newest that occurs alone
            ok = None
            for v in sorted(cand, reverse=True):
                occ = [m for m in q if v in m]
                if occ == [(v,)]: ok = v; break
            if ok is None: return
            vid = ok
        c = q[(vid,)]
        R, k = VARS[vid].data
        R = _sub(R, sub)
        z = (c & -c).bit_length() - 1
        need = max(0, k - z)
        if need:
            q = pscale(q, 1 << need); s += need; slo <<= need; shi <<= need; c <<= need
        q = dict(q); del q[(vid,)]
        cc = c >> k
        q = padd(q, R, cc)
        # h = (R - lo)/2^k, lo in [0, 2^k - 1]
        mx = (1 << k) - 1
        if cc > 0: slo -= cc * mx
        else: shi -= cc * mx
        yield q, s, slo, shi

def elim_top(q, s, slo, shi):
    """replace leading limbs by the named sums they belong to (exact)"""
    while True:
        tops = [v for v in pvars(q) if VARS[v].kind == 'top']
        if not tops: return q, s, slo, shi
        vid = max(tops)
        A, rest, k = VARS[vid].data        # 2^k v = A - rest
        deg = max(m.count(vid) for m in q)
        r = {}
        num = padd(pvar(A), rest, -1)
        for m, c in q.items():
            n = m.count(vid)
            t = {tuple(x for x in m if x != vid): c << (k * (deg - n))}
            for _ in range(n): t = pmul(t, num)
            r = padd(r, t)
        q = r; s += k * deg; slo <<= k * deg; shi <<= k * deg
        # remove common power of two with the scale
        if q and s:
            z = min((c & -c).bit_length() - 1 for c in q.values())
            z = min(z, s)
            if z:
                q = {m: c >> z for m, c in q.items()}; s -= z
                slo = slo >> z; shi = -((-shi) >> z)

def named_sum(vars_, w, lo, hi, name):
    """declare that sum vars_[i] 2^(w i) lies in [lo, hi]: the last variable becomes a 'top' variable"""
    top = vars_[-1]
    rest = {}
    for i, v in enumerate(vars_[:-1]): rest[(v.id,)] = 1 << (w * i)
    A = newvar(lo, hi, 'sum', None, name)
    top.kind = 'top'; top.data = (A, rest, w * (len(vars_) - 1))
    return A

def _relbound(q, facts, depth, used=(), env=None):
    """interval of q using relational facts (list of (poly, lo, hi))"""
    lo, hi = pinterval(q, env)
    if depth == 0 or not q: return lo, hi
    lm = max((m for m in q if m), key=lambda m: abs(q[m]) * max(abs(x) for x in miv(m)), default=None)
    if lm is None: return lo, hi
    for i, (f, fl, fh) in enumerate(facts):
        if i in used or lm not in f: continue
        t = Fraction(q[lm], f[lm])
        n, d = t.numerator, t.denominator
        r = padd(pscale(q, d), f, -n)
        a, b = _relbound(r, facts, depth - 1, used + (i,), env)
        if n > 0: a2, b2 = a + n * fl, b + n * fh
        else: a2, b2 = a + n * fh, b + n * fl
        a2 = -((-a2) // d); b2 = b2 // d
        lo = max(lo, a2); hi = min(hi, b2)
    return lo, hi

def _norm(q, s, slo, shi, lo, hi):
    """2^s p = q + slack and lo <= p <= hi  =>  l <= q' <= h"""
    l, h = (lo << s) - shi, (hi << s) - slo
    g = pcontent(q)
    if g > 1:
        c0 = q.get((), 0)
        q = {m: c // g for m, c in q.items() if m}
        l, h = -((c0 - l) // g), (h - c0) // g
    return q, l, h

def _toplevel(q):
    return max((v for v in pvars(q) if VARS[v].kind == 'split'), default=-1)

def unfold(facts):
    """facts over eliminated (input-level) polynomials"""
    if facts.unf is not None: return facts.unf
    out = facts.unf = []
    facts.vers = []
    for e in facts.fs:
        p, lo, hi = e[:3]
        p = _sub(p, facts.sub)
        vers = []
        for q, s, slo, shi in eliminate(p, facts.sub):
            vers.append((_toplevel(q), q, s, slo, shi, lo, hi))
        facts.vers.append(vers)
        q, s, slo, shi = elim_top(q, s, slo, shi)
        q, lo, hi = _norm(q, s, slo, shi, lo, hi)
        out.append((q, lo, hi))
        ms = [m for m in q if m]
        if len(ms) == 1 and len(ms[0]) == 1:
            v = ms[0][0]; k = q[ms[0]]; c0 = q.get((), 0)
            l, h = lo - c0, hi - c0
            if k < 0: l, h, k = -h, -l, -k
            l, h = -((-l) // k), h // k
            if facts.env is None: facts.env = {}
            a, b = facts.env.get(v, (VARS[v].lo, VARS[v].hi))
            facts.env[v] = (max(a, l), min(b, h))
    return out

def _at_level(vers, n):
    """the first version of a fact whose remaining split variables are all <= n"""
    for v in vers:
        if v[0] <= n: return v
    return None

def bound(p, facts, want=None):
    """sound integer bounds for p under facts"""
    lo, hi = pinterval(_sub(p, facts.sub))
    if want and lo >= want[0] and hi <= want[1]: return lo, hi
    t0 = time.time(); STATS['queries'] += 1
    try:
        fl = unfold(facts) if facts.fs else ()
        for q, s, slo, shi in eliminate(p, facts.sub):
            a, b = pinterval(q)
            a = -((-(a + slo)) >> s); b = (b + shi) >> s
            lo, hi = max(lo, a), min(hi, b)
            if want and lo >= want[0] and hi <= want[1]: return lo, hi
            if fl:
                n = _toplevel(q)
                if n >= 0:
                    for vers in facts.vers:
                        f = _at_level(vers, n)
                        if f is None or f[0] != n: continue
                        m = max((m for m in q if m), key=lambda m: abs(q[m]))
                        if m not in f[1]: continue
                        fq, l, h = _norm(*f[1:])
                        a, b = _relbound1(q, fq, l, h, m)
                        a = -((-(a + slo)) >> s); b = (b + shi) >> s
                        lo, hi = max(lo, a), min(hi, b)
                    if want and lo >= want[0] and hi <= want[1]: return lo, hi
        q, s, slo, shi = elim_top(q, s, slo, shi)
        a, b = _relbound(q, fl, 3 if fl else 0, (), facts.env)
        a = -((-(a + slo)) >> s); b = (b + shi) >> s
        return max(lo, a), min(hi, b)
    finally:
        STATS['time'] += time.time() - t0

def _relbound1(q, f, fl, fh, lm):
    t = Fraction(q[lm], f[lm])
    n, d = t.numerator, t.denominator
    r = padd(pscale(q, d), f, -n)
    a, b = pinterval(r)
    if n > 0: a, b = a + n * fl, b + n * fh
    else: a, b = a + n * fh, b + n * fl
    return -((-a) // d), b // d

def infeasible(facts):
    u = unfold(facts)
    for i, (q, lo, hi) in enumerate(u):
        if lo > hi: return True
    if facts.inf is None:
        facts.inf = False
        for i, (q, lo, hi) in enumerate(u):
            a, b = _relbound(q, u, 2, (i,), facts.env)
            if a > hi or b < lo: facts.inf = True; break
        if facts.env and any(a > b for a, b in facts.env.values()): facts.inf = True
    return facts.inf

def _pow2(c):
    c = abs(c)
    return c & (c - 1) == 0

def candidates(p, facts, W=1, maxn=8, odd=False):
    """small variables whose case analysis can matter for bounding p: those whose
    elimination costs a significant part of a unit"""
    out = []
    prev = None
    for q, s, slo, shi in eliminate(p, facts.sub):
        if prev is not None:
            q0, s0, l0, h0 = prev
            gone = [v for v in pvars(q0) if v not in pvars(q) and VARS[v].kind == 'split']
            d = max((shi - slo) - ((h0 - l0) << (s - s0)), 0)
            if gone and (d > (W << s) >> 12 or odd and not _pow2(q0.get((gone[0],), 1))):
                for v in gone:
                    if VARS[v].hi - VARS[v].lo >= maxn: tighten_var(pvar(VARS[v]))
                    if VARS[v].hi - VARS[v].lo < maxn: out.append(v)
        prev = (q, s, slo, shi)
    q = prev[0]
    for v in pvars(q):
        V = VARS[v]
        if V.hi - V.lo < 4 and v not in facts.sub: out.append(v)
    return out

def prove(goal, facts, depth=6):
    """goal: ('zero', p, m) p = 0 (mod m if m) | ('range', p, lo, hi)"""
    t0 = time.time(); STATS['queries'] += 1
    global DEADLINE
    top = DEADLINE is None
    if top: DEADLINE = t0 + 30
    try:
        if _prove(goal, facts, depth): return True
        if ORDER[0] == 'min' and top:
            ORDER[0] = 'near'
            try: return _prove(goal, facts, depth + 2)
            finally: ORDER[0] = 'min'
        return False
    except Timeout: return False
    finally:
        if top: DEADLINE = None
        STATS['time'] += time.time() - t0

DEADLINE = None
class Timeout(Exception): pass

def _close(goal, facts):
    kind = goal[0]
    if kind == 'zero':
        _, p, m = goal
        p = _sub(p, facts.sub)
        if m: p = {k: c % m for k, c in p.items() if c % m}
        if not p: return True, p
        return False, p
    _, p, lo, hi = goal
    p = _sub(p, facts.sub)
    a, b = bound(p, facts, (lo, hi))
    if a > b: return True, p
    return (a >= lo and b <= hi), p

ORDER = ['min']
def _prove(goal, facts, depth):
    if DEADLINE and time.time() > DEADLINE: raise Timeout
    ok, p = _close(goal, facts)
    if ok: return True
    cands = []
    if goal[0] == 'zero':
        changed = True
        while changed:
            changed = False
            for v in sorted(pvars(p)):
                V = VARS[v]
                if (V.hi - V.lo <= 64 or len(pvars(p)) <= 6 and V.kind in ('split', 'top')) and v not in facts.sub:
                    a, b = bound(pvar(V), facts)
                    if a > b: return True       # contradiction: path impossible
                    if a == b:
                        facts = facts.fix(v, a); changed = True
                        break
            if changed:
                ok, p = _close(goal, facts)
                if ok: return True
        if goal[2] is None:
            a, b = bound(p, facts, (0, 0))
            if a == b == 0: return True
        for v in sorted(pvars(p)):
            V = VARS[v]
            if V.hi - V.lo <= 8 or len(pvars(p)) <= 6 and V.kind == 'split':
                cands += candidates(pvar(V), facts)
                if V.hi - V.lo <= 8: cands.append(v)
    else:
        W = max(1, goal[3] - goal[2])
        sig = [m[0] for m, c in p.items() if len(m) == 1 and VARS[m[0]].kind == 'split' and abs(c) * 64 > W]
        if len(sig) <= 4:
            ch = False
            for v in sorted(sig):
                if v in facts.sub: continue
                tighten_var(pvar(VARS[v]))
                a, b = bound(pvar(VARS[v]), facts)
                if a > b: return True
                if a == b: facts = facts.fix(v, a); ch = True
            if ch:
                ok, p = _close(goal, facts)
                if ok: return True
        cands = candidates(p, facts, W)
        small = [v for v in pvars(p) if VARS[v].kind == 'split' and VARS[v].hi - VARS[v].lo <= 2 and v not in facts.sub]
        if len(small) <= 4: cands += small
    if not cands:
        for f, lo, hi, *_ in facts.fs[-6:]:
            cands += candidates(f, facts, max(1, hi - lo), 2, True)
            small = [v for v in pvars(f) if VARS[v].kind == 'split' and VARS[v].hi - VARS[v].lo <= 2 and v not in facts.sub]
            if len(small) <= 4: cands += small
    if depth == 0: return False
    if not cands:
        # case split on a composite condition
        mx = max(pvars(p), default=-1)
        for k, g in GATES.items():
            if k in facts.gates or max(pvars(g)) > mx: continue
            for val in (0, 1):
                f2 = facts.assume(g, val, val)
                f2.gates = facts.gates | {k}
                if infeasible(f2): continue
                if not _prove(goal, f2, depth - 1): break
            else: return True
            if len(facts.gates) > 2: return False
        return False
    v = min(cands) if ORDER[0] == 'min' else cands[0]
    V = VARS[v]
    lo, hi = V.lo, V.hi
    if hi - lo > 1:
        a, b = bound(pvar(V), facts)
        lo, hi = max(lo, a), min(hi, b)
    for val in range(lo, hi + 1):
        f2 = facts.fix(v, val)
        if infeasible(f2): continue
        if not _prove(goal, f2, depth - 1): return False
    return True


def refute(facts, depth=8):
    """can the facts be shown contradictory?"""
    if infeasible(facts) or prove(('range', {(): 1}, 0, 0), facts, 4): return True
    ORDER[0] = 'near'
    try: return prove(('range', {(): 1}, 0, 0), facts, depth)
    finally: ORDER[0] = 'min'

def tighten_var(p):
    """if p = k v + c, improve the (unconditional) range of the split variable v"""
    m = [x for x in p if x]
    if len(m) != 1 or len(m[0]) != 1: return
    V = VARS[m[0][0]]
    if V.kind != 'split': return
    a, b = bound(pvar(V), Facts())
    if a > V.lo: V.lo = a
    if b < V.hi: V.hi = b
