"""Exact algebra of values in a prime field F_m over named unknowns.

A value is  c * prod base_i ^ e_i  with c in F_m, bases being unknowns or
polynomials in unknowns, exponents arbitrary integers (the exponents of the
addition chains are kept exactly).  Polynomials are kept in normal form modulo
the rewriting rules of the current context (curve equations, squares of roots,
equations assumed on the current branch)."""

class Undecided(Exception):
    def __init__(self, key): self.key = key

class Incomplete(Exception): pass      # the algebra cannot represent the value

def mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n: d[k] = n
        else: del d[k]
    return tuple(sorted(d.items()))

class Ctx:
    """field context: modulus, unknowns, rules, known facts, decisions of this branch"""
    def __init__(self, m, oracle=None):
        self.m = m
        self.names = []
        self.rules = []                  # (lead monomial, replacement poly)
        self.bases = {}                  # key -> poly
        self.nonzero = set()             # base keys
        self.zero = set()
        self.chi = {}                    # base key -> +-1
        self.roots = {}                  # base key -> atom id of R with R^2 = chi*base
        self.negs = []                   # [(value, bool)]
        self.trace = []                  # decisions taken: (kind, desc, answer)
        self.oracle = oracle or (lambda kind, desc: (_ for _ in ()).throw(Undecided((kind, desc))))
        self.maxterms = 60000
        self.alias = {}                  # base key -> (const, {base: exponent}): the base equals this product

    # ---- unknowns
    def atom(self, name, nonzero=False):
        i = len(self.names); self.names.append(name)
        if nonzero: self.nonzero.add(('a', i))
        return i
    def const(self, c): return Q(self, c % self.m, {})
    def var(self, name, nonzero=False): return self.of_atom(self.atom(name, nonzero))
    def of_atom(self, i): return Q(self, 1, {('a', i): 1})

    # ---- polynomials
    def padd(self, a, b, k=1):
        r = dict(a); m = self.m
        for t, c in b.items():
            s = (r.get(t, 0) + k * c) % m
            if s: r[t] = s
            else: r.pop(t, None)
        return r
    def pmul(self, a, b):
        r = {}; m = self.m
        for t1, c1 in a.items():
            for t2, c2 in b.items():
                t = mmul(t1, t2)
                s = (r.get(t, 0) + c1 * c2) % m
                if s: r[t] = s
                else: r.pop(t, None)
        if len(r) > self.maxterms: raise Incomplete('expression too large')
        return self.nf(r)
    def nf(self, p):
        if not self.rules: return p
        m = self.m
        for _ in range(10000):
            hit = None
            for t in p:
                d = None
                for lead, rep in self.rules:
                    if len(lead) <= len(t):
                        if d is None: d = dict(t)
                        if all(d.get(k, 0) >= e for k, e in lead):
                            hit = (t, lead, rep); break
                if hit: break
            if not hit: return p
            # rewrite every monomial divisible by lead in one sweep
            lead, rep = hit[1], hit[2]
            r = {}
            for t, c in p.items():
                d = dict(t)
                if all(d.get(k, 0) >= e for k, e in lead):
                    for k, e in lead:
                        d[k] -= e
                        if not d[k]: del d[k]
                    q = tuple(sorted(d.items()))
                    for t2, c2 in rep.items():
                        u = mmul(q, t2)
                        s = (r.get(u, 0) + c * c2) % m
                        if s: r[u] = s
                        else: r.pop(u, None)
                else:
                    s = (r.get(t, 0) + c) % m
                    if s: r[t] = s
                    else: r.pop(t, None)
            p = r
        raise Incomplete('rewriting does not terminate')
    def ppow(self, p, e):
        r = {(): 1}
        while e:
            if e & 1: r = self.pmul(r, p)
            e >>= 1
            if e: p = self.pmul(p, p)
        return r

    def add_rule(self, lead, rep):
        """lead (monomial) = rep (poly) holds on this branch"""
        self.rules.append((lead, rep))

    # ---- bases
    def frompoly(self, p):
        """poly -> Q with primitive base"""
        if not p: return Q(self, 0, {})
        p = self.nf(p)
        if not p: return Q(self, 0, {})
        it = iter(p); com = dict(next(it))
        for t in it:
            if not com: break
            d = dict(t)
            com = {k: min(e, d[k]) for k, e in com.items() if k in d}
        # negative exponents occur only for unknowns known to be nonzero
        neg = {}
        for t in p:
            for k, e in t:
                if e < 0: neg[k] = min(neg.get(k, 0), e)
        for k, e in neg.items(): com[k] = min(com.get(k, 0), e) if k in com else e
        f = {}
        if com:
            inv = tuple(sorted((k, -e) for k, e in com.items()))
            p = {mmul(t, inv): c for t, c in p.items()}
            f = {('a', k): e for k, e in com.items()}
        if len(p) == 1:
            (t, c), = p.items()
            for k, e in t: f[('a', k)] = f.get(('a', k), 0) + e
            return Q(self, c, {k: e for k, e in f.items() if e})
        lt = min(p)
        c = p[lt]
        if c != 1:
            ci = pow(c, -1, self.m)
            p = {t: x * ci % self.m for t, x in p.items()}
        key = ('p', frozenset(p.items()))
        if key in self.alias:
            ac, af = self.alias[key]
            for k, e in af.items():
                f[k] = f.get(k, 0) + e
            return Q(self, c * ac % self.m, {k: e for k, e in f.items() if e})
        self.bases[key] = p
        f[key] = 1
        return Q(self, c, f)

    def basepoly(self, key):
        if key[0] == 'a': return {((key[1], 1),): 1}
        return self.bases[key]

    # ---- facts about bases
    def is_zero_base(self, key):
        if key in self.nonzero: return False
        if key in self.zero: return True
        if key[0] == 'p':
            p = self.nf(self.basepoly(key))      # rules may have been added since
            if not p: self.zero.add(key); return True
            if p != self.basepoly(key):
                q = self.frompoly(p)
                z = q.is_zero()
                (self.zero if z else self.nonzero).add(key)
                return z
            # product of known nonzero values?
            if self.known_nonzero(p): self.nonzero.add(key); return False
        else:
            for lead, rep in self.rules:
                if lead == ((key[1], 1),):
                    z = self.frompoly(rep).is_zero()
                    (self.zero if z else self.nonzero).add(key)
                    return z
        if key[0] == 'p' and len(p) == 2 and all(e % 2 == 0 for t in p for _, e in t):
            # a^2 - c b^2: zero iff one of its factors is (c a square), or a = b = 0
            (t1, c1), (t2, c2) = sorted(p.items(), reverse=True)
            c = -c2 * pow(c1, -1, self.m) % self.m
            r = pow(c, (self.m + 1) // 4, self.m)
            if r * r % self.m == c:
                h = lambda t: tuple((k, e // 2) for k, e in t)
                z = self.frompoly({h(t1): 1, h(t2): self.m - r}).is_zero() or self.frompoly({h(t1): 1, h(t2): r}).is_zero()
                (self.zero if z else self.nonzero).add(key)
                return z
        ans = self.ask('zero', key)
        if ans:
            self.assume_zero(key)
        else: self.nonzero.add(key)
        return ans

    def assume_zero(self, key):
        self.zero.add(key)
        p = self.basepoly(key)
        if key[0] == 'a':
            self.add_rule(((key[1], 1),), {})
        else:
            # orient the equation: prefer a linear unknown with invertible (constant) coefficient
            best = None
            for t in p:
                if not t: continue
                deg = sum(e for _, e in t)
                if best is None or (deg, t) > best[:2]: best = (deg, t)
            t = best[1]; ci = pow(-p[t], -1, self.m)
            rep = {u: c * ci % self.m for u, c in p.items() if u != t}
            self.add_rule(t, rep)

    hints = ()
    def known_nonzero(self, p):
        """is p (up to a constant) a product of at most two values known to be nonzero?"""
        hs = [h for h in self.hints]
        def norm(x):
            x = self.nf(x)
            q = self.frompoly(x)
            if q.c == 0: return None
            if any(k[0] == 'a' and k not in self.nonzero for k in q.f): return None
            ks = [k for k in q.f if k[0] == 'p']
            return (ks[0], q.f[ks[0]]) if len(ks) == 1 else ('unit',) if not ks else None
        t = norm(p)
        if t is None: return False
        for i, a in enumerate(hs):
            if norm(a) == t: return True
            for b in hs[i:]:
                if norm(self.pmul(a, b)) == t: return True
        return False

    def chi_base(self, key):
        """quadratic character of a nonzero base"""
        if key in self.chi: return self.chi[key]
        ans = self.ask('chi', key)
        self.chi[key] = 1 if ans else -1
        return self.chi[key]

    def root(self, key):
        """unknown R with R^2 = chi(key) * key, key nonzero"""
        r = self.roots.get(key)
        if r is None:
            x = self.chi_base(key)
            r = self.roots[key] = self.atom(f'sqrt[{self.show_base(key)}]')
            self.nonzero.add(('a', r))
            p = self.basepoly(key)
            self.add_rule(((r, 2),), {t: x * c % self.m for t, c in p.items()})
        return r

    def ask(self, kind, key):
        a = self.oracle(kind, key)
        self.trace.append((kind, self.show_base(key) if isinstance(key, tuple) else str(key), a))
        return a

    def show_base(self, key):
        if key[0] == 'a': return self.names[key[1]]
        return '(' + self.show_poly(self.bases[key]) + ')'
    def show_poly(self, p, n=8):
        out = []
        for t, c in list(p.items())[:n]:
            if c > self.m // 2: c -= self.m
            if abs(c) > 1 << 40: c = 'C'
            out.append(f"{c}" + ''.join('*' + self.names[k] + (f'^{e}' if e != 1 else '') for k, e in t))
        return ' + '.join(out) + (' + ...' if len(p) > n else '')

SMALL = 200
class Q:
    __slots__ = ('x', 'c', 'f')
    def __init__(self, ctx, c, f): self.x, self.c, self.f = ctx, c, (f if c else {})
    def __repr__(self):
        return f"{self.c if self.c < 1 << 40 else 'C'}" + ''.join(f"*{self.x.show_base(k)}^{e if abs(e) < 10000 else 'E'}" for k, e in self.f.items())
    # ---- multiplicative structure (no expansion)
    def __mul__(self, o):
        if isinstance(o, int): return Q(self.x, self.c * o % self.x.m, self.f)
        c = self.c * o.c % self.x.m
        if not c: return Q(self.x, 0, {})
        f = dict(self.f)
        m1 = self.x.m - 1
        for k, e in o.f.items():
            n = f.get(k, 0) + e
            if n > 4 * m1: n = (n - 1) % m1 + 1
            if n or k not in self.x.nonzero and (k in f and f[k] != n): f[k] = n
            else: f.pop(k, None)
            if n == 0: f.pop(k, None)
        return Q(self.x, c, f)
    def pow(self, e):
        if e == 0: return self.x.const(1)
        m1 = self.x.m - 1
        f = {}
        for k, d in self.f.items():
            n = d * e
            if n > 4 * m1: n = (n - 1) % m1 + 1
            f[k] = n
        if e < 0 and any(k not in self.x.nonzero for k in self.f):
            for k in self.f:
                if self.x.is_zero_base(k): raise Incomplete('division by zero')
        return Q(self.x, pow(self.c, e, self.x.m), f)
    def __neg__(self): return Q(self.x, -self.c % self.x.m, self.f)
    def __add__(self, o): return self.addsub(o, 1)
    def __sub__(self, o): return self.addsub(o, -1)
    def inv(self): return self.pow(-1)

    # ---- normalisation of exponents
    def norm(self):
        """exponents brought to small integers: g^(m-2) -> 1/g, g^((m-1)/2) -> chi(g), g^((m-3)/4) -> root"""
        x = self.x; m = x.m; m1 = m - 1
        if not self.c: return self
        c = self.c; f = {}
        todo = list(self.f.items())
        for k, e in todo:
            if e == 0: continue
            if k in x.zero or (k not in x.nonzero and (e < 0 or e > SMALL) and x.is_zero_base(k)):
                return Q(x, 0, {})
            if k[0] == 'a' and any(l == ((k[1], 1),) for l, _ in x.rules):
                rep = next(r for l, r in x.rules if l == ((k[1], 1),))
                q = x.frompoly(rep).pow(e).norm() if e > 0 or not x.is_zero_base(k) else None
                c = c * q.c % m
                if not c: return Q(x, 0, {})
                for kk, ee in q.f.items(): f[kk] = f.get(kk, 0) + ee
                continue
            if abs(e) > SMALL:
                h = m1 // 2; q4 = (m - 3) // 4
                r = e % m1
                done = False
                for base, j in ((0, r), (m1, r - m1), (h, r - h), (q4, r - q4), (h + q4, r - h - q4)):
                    if abs(j) <= SMALL:
                        if base in (h, h + q4): c = c * x.chi_base(k) % m
                        if base in (q4, h + q4):
                            if m % 4 != 3: raise Incomplete('square root exponent')
                            R = x.root(k); c = c * x.chi_base(k) % m
                            f[('a', R)] = f.get(('a', R), 0) + 1
                            j -= 1
                        e = j; done = True; break
                if not done: raise Incomplete(f'exponent of {x.show_base(k)}')
                if e == 0: continue
            f[k] = f.get(k, 0) + e
        # even powers of roots
        for key, R in list(x.roots.items()):
            a = ('a', R)
            if a in f and not 0 <= f[a] <= 1:
                n, b = divmod(f[a], 2)
                f[a] = b
                if not b: del f[a]
                if x.chi[key] < 0 and n % 2: c = -c % m
                f[key] = f.get(key, 0) + n
        return Q(x, c, {k: e for k, e in f.items() if e})

    def expand(self):
        """polynomial (all exponents nonnegative, except for monomial unknowns)"""
        x = self.x
        r = {(): self.c} if self.c else {}
        mono = []
        for k, e in sorted(self.f.items(), key=lambda t: str(t[0])[:40]):
            if k[0] == 'a': mono.append((k[1], e))
        if mono and r:
            r = x.nf({tuple(sorted(mono)): self.c})
        for k, e in self.f.items():
            if k[0] == 'p':
                if e < 0: raise Incomplete('negative exponent')
                r = x.pmul(r, x.ppow(x.basepoly(k), e))
        return r

    def addsub(self, o, s):
        x = self.x
        a, b = self.norm(), o.norm()
        if not a.c: return b if s > 0 else -b
        if not b.c: return a
        com = {}
        for k in set(a.f) | set(b.f):
            e = min(a.f.get(k, 0), b.f.get(k, 0))
            if e: com[k] = e
        ra = Q(x, a.c, {k: a.f.get(k, 0) - com.get(k, 0) for k in set(a.f) | set(com) if a.f.get(k, 0) != com.get(k, 0)})
        rb = Q(x, b.c, {k: b.f.get(k, 0) - com.get(k, 0) for k in set(b.f) | set(com) if b.f.get(k, 0) != com.get(k, 0)})
        p = x.padd(ra.expand(), rb.expand(), s)
        return x.frompoly(p) * Q(x, 1, com)

    # ---- predicates (may ask decisions)
    def is_zero(self):
        a = self.norm()
        if not a.c: return True
        for k, e in a.f.items():
            if e > 0 and self.x.is_zero_base(k): return True
        return False
    def same(self, o):
        """provably equal on this branch, without asking anything new"""
        m1 = self.x.m - 1
        if self.c == o.c and set(self.f) == set(o.f) and all(e == o.f[k] or (e > 0 and o.f[k] > 0 and (e - o.f[k]) % m1 == 0) for k, e in self.f.items()): return True
        old = self.x.oracle
        def stop(kind, key): raise Undecided((kind, key))
        self.x.oracle = stop
        try:
            d = (self - o)
            if not d.c: return True
            d = d.renorm()
            if not d.c: return True
            return d.is_zero()
        except (Undecided, Incomplete): return False
        finally: self.x.oracle = old
    def renorm(self):
        """re-reduce polynomial bases with the current rules"""
        x = self.x
        if not self.c: return self
        r = Q(x, self.c, {k: e for k, e in self.f.items() if k[0] == 'a'}).norm()
        for k, e in self.f.items():
            if k[0] == 'p':
                p = x.nf(x.basepoly(k))
                if not p:
                    if e > 0: return Q(x, 0, {})
                    raise Incomplete('zero denominator')
                r = r * (x.frompoly(p).pow(e) if p != x.basepoly(k) else Q(x, 1, {k: e}))
        return r.norm()
    def neg_bit(self):
        """sign of the canonical representative (its parity), a decision of the branch"""
        x = self.x
        if self.is_zero(): return 0
        a = self.renorm()
        if all(False for _ in a.f) or not a.f: return a.c & 1
        for v, bit in x.negs:
            if a.same(v): return bit
            if a.same(-v): return 1 - bit
        if a.c > x.m - a.c:
            bit = x.ask('neg', repr(-a)); x.negs.append((-a, bit)); return 1 - bit
        bit = x.ask('neg', repr(a)); x.negs.append((a, bit))
        return bit
