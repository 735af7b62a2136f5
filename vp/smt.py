"""Second back end: an obligation the native prover leaves open is handed to Z3 as an
integer problem (the same variables, splits and facts; nothing is approximated)."""
import time
from sym import VARS, pvars, STATS
import z3

def _vars_closure(ps):
    seen = set(); work = [v for p in ps for v in pvars(p)]
    while work:
        v = work.pop()
        if v in seen: continue
        seen.add(v)
        V = VARS[v]
        if V.kind == 'split': work += list(pvars(V.data[0]))
        elif V.kind == 'top': work += list(pvars(V.data[1])) + [V.data[0].id]
        elif V.kind == 'div': work += list(pvars(V.data[0]))
    return seen

BUDGET = [150.0]      # seconds left in this process

def build(facts, extra):
    ps = [f[0] for f in facts.fs] + [e[0] for e in extra]
    vs = _vars_closure(ps) | set(facts.sub)
    vs |= _vars_closure([{(v,): 1} for v in facts.sub])
    X = {v: z3.Int(f'v{v}') for v in vs}
    def poly(p):
        ts = []
        for m, c in p.items():
            if not m: ts.append(z3.IntVal(c)); continue
            bs = [v for v in m if VARS[v].lo >= 0 and VARS[v].hi <= 1]
            rest = [v for v in m if not (VARS[v].lo >= 0 and VARS[v].hi <= 1)]
            t = None
            for v in rest: t = X[v] if t is None else t * X[v]
            if len(bs) == 1 and t is None: t = X[bs[0]]
            elif bs: t = z3.If(z3.And([X[v] == 1 for v in set(bs)]), t if t is not None else z3.IntVal(1), z3.IntVal(0))
            ts.append(t * c if c != 1 else t)
        return z3.Sum(ts) if ts else z3.IntVal(0)
    s = z3.Solver()
    for v in vs:
        V = VARS[v]
        s.add(X[v] >= V.lo, X[v] <= V.hi)
        if V.kind == 'split':
            R, k = V.data; r = poly(R)
            s.add(r - X[v] * (1 << k) >= 0, r - X[v] * (1 << k) < (1 << k))
        elif V.kind == 'top':
            A, rest, k = V.data
            s.add(X[v] * (1 << k) == X[A.id] - poly(rest))
        elif V.kind == 'div':
            pa, b = V.data; r = poly(pa)
            s.add(r - X[v] * b >= 0, r - X[v] * b < b)
        if v in facts.sub: s.add(X[v] == facts.sub[v])
    for f in facts.fs:
        q = poly(f[0])
        if f[1] == f[2]: s.add(q == f[1])
        else: s.add(q >= f[1], q <= f[2])
    return s, poly, X

def refute(facts, extra=(), ms=60000):
    """are the facts together with extra ((poly, op)) contradictory?  op: 'ne0' | ('lt', c) | ('gt', c)"""
    t0 = time.time()
    ms = int(min(ms, BUDGET[0] * 1000))
    if ms < 200: return False
    STATS['smt'] = STATS.get('smt', 0) + 1
    try:
        s, poly, X = build(facts, extra)
        for p, op in extra:
            q = poly(p)
            if op == 'ne0': s.add(q != 0)
            elif op[0] == 'out': s.add(z3.Or(q < op[1], q > op[2]))
        s.set('timeout', ms)
        return s.check() == z3.unsat
    except z3.Z3Exception: return False
    finally:
        d = time.time() - t0; BUDGET[0] -= d
        STATS['smt_time'] = STATS.get('smt_time', 0) + d

def prove(goal, facts, ms=60000):
    if goal[0] == 'zero':
        if goal[2]: return False
        return refute(facts, [(goal[1], 'ne0')], ms)
    return refute(facts, [(goal[1], ('out', goal[2], goal[3]))], ms)
