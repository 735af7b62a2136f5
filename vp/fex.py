"""Execution of the real code over abstract field elements.

A field element is an exact value of the algebra (fq) together with bounds on
its limbs; every function that touches limbs is replaced by its proved contract
(base.FieldContracts).  Booleans that depend on field values are decisions of the
branch: the caller enumerates all of them (run_all)."""
from base import *
from fq import Q, Ctx, Undecided, Incomplete

class FEV(Opq):
    def __init__(self, q, b): self.q, self.b = q, b
    def __repr__(self): return f'FE[{self.q!r:.120}]'

class FEx(Exec):
    def __init__(self, prog, ty, fc, ctx):
        super().__init__(prog)
        self.ty, self.fc, self.ctx = ty, fc, ctx
        self.tags = {}              # var id -> () -> 0/1
        self.encs = []              # (value, tuple of items)
        self.raw = {}               # tuple of var ids -> value
        self.rawinfo = {}
        self.eq_hook = self._eq_hook; EQHOOK[0] = self._eq_hook
        self.free = {}; self.rawlow = {}
        self.deepmemo = {}

    # ---- decisions
    def resolve(self, c):
        if c.__class__ is EnumV: return c
        while isinstance(c, Sym):
            t = [v for v in pvars(c.p) if v in self.tags]
            if not t:
                p = c.p
                for v in pvars(p):
                    if VARS[v].kind == 'split' and VARS[v].data[1] == 1 and len(VARS[v].data[0]) == 1:
                        (m, k), = VARS[v].data[0].items()
                        if k == 1 and len(m) == 1 and m[0] in self.rawlow: p = psubst(p, m[0], padd(pscale({(v,): 1}, 2), P(self.rawlow[m[0]])))
                p = self.deep(p)
                if p == c.p: return c
                c = mk(p); continue
            v = t[0]
            c = mk(psubst(c.p, v, pconst(self.tagval(v))))
        return c
    def tagval(self, v):
        val = self.tags[v]()
        self.tags[v] = lambda val=val: val
        return val
    def deep(self, p):
        """quotients of expressions over decisions are recomputed with the decisions taken"""
        for v in pvars(p):
            if v in self.tags: p = psubst(p, v, pconst(self.tagval(v)))
            elif VARS[v].kind in ('split', 'div'):
                w = self.deepmemo.get(v)
                if w is None:
                    R, k = VARS[v].data
                    R2 = self.deep(R)
                    if R2 == R: w = pvar(VARS[v])
                    elif VARS[v].kind == 'split': w = pfloor(R2, k)
                    else:
                        lo, hi = pinterval(R2)
                        w = pconst(lo // k) if lo // k == hi // k else pvar(VARS[v])
                    self.deepmemo[v] = w
                if w != {(v,): 1}: p = psubst(p, v, w)
        return p
    def bytecmp(self, c):
        """does c compare the first byte of an encoding (kept whole so that the comparison of all bytes can be recognised)?"""
        ps = oc(c) or zc(c)
        return bool(ps) and any(x is it[0] or y is it[0] for x, y in ps for _, it in self.encs)
    def decide(self, st, c):
        if isinstance(c, Sym) and not self.bytecmp(c): c = self.resolve(c)
        return super().decide(st, c)
    def merge(self, c, a, b):
        if isinstance(c, Sym) and not isinstance(a, (int, Sym)) and not self.bytecmp(c): c = self.resolve(c)
        return super().merge(c, a, b)
    def boolvar(self, thunk, name):
        v = fresh(0, 1, name, 'tag')
        self.tags[next(iter(v.p))[0]] = thunk
        return v
    def free_choice(self, name):
        """an arbitrary boolean input"""
        def ask():
            if name not in self.free: self.free[name] = int(self.ctx.ask('input', name))
            return self.free[name]
        return self.boolvar(ask, name)

    # ---- bytes
    def encode(self, q):
        for v, items in self.encs:
            if v is q or v.same(q): return items
        if not q.f and q.c is not None and not q.norm().f:
            n = q.norm().c
            items = tuple((n >> (8 * i)) & 255 for i in range(56))
        else:
            n = self.boolvar(lambda q=q: q.neg_bit(), 'neg')
            h = fresh(0, 127, 'enc0', 'enc')
            items = (add(mul(2, h), n),) + tuple(fresh(0, 255, f'enc{i}', 'enc') for i in range(1, 56))
        self.encs.append((q, items))
        return items
    def lookup_enc(self, items):
        items = tuple(items)
        if all(iscon(x) for x in items):
            return ('const', sum(x << (8 * i) for i, x in enumerate(items)))
        for q, it in self.encs:
            if len(it) == len(items) and all(a is b or (P(a) == P(b)) for a, b in zip(it, items)): return ('enc', q)
        ids = []
        for x in items:
            if isinstance(x, Sym) and len(x.p) == 1 and list(x.p.values()) == [1] and len(next(iter(x.p))) == 1: ids.append(next(iter(x.p))[0])
            else: return None
        if all(VARS[i].kind == 'in' for i in ids): return ('raw', tuple(ids))
        return None
    def raw_value(self, ids):
        if ids not in self.raw:
            q = self.raw[ids] = self.ctx.var(f'B{len(self.raw)}')
            # the lowest bit of the bytes: p is odd, so a non-canonical string has the other parity than its value
            self.rawlow[ids[0]] = self.boolvar(lambda: q.neg_bit() if self.canon_bit(ids) else 1 - q.neg_bit(), 'low')
        return self.raw[ids]
    def canon_bit(self, ids):
        """are the raw bytes a canonical encoding (integer < p)?"""
        key = ('canon', ids)
        if key not in self.free: self.free[key] = int(self.ctx.ask('canonical', f'bytes{list(self.raw).index(ids)}'))
        return self.free[key]
    def as_bytes(self, x):
        """the 56 bytes of words built from bytes"""
        n = 56 // len(x); out = []
        for w in x:
            if iscon(w): out += [(w >> (8 * i)) & 255 for i in range(n)]; continue
            g = [{} for _ in range(n)]
            for m, c in P(w).items():
                i = (c.bit_length() - 1) // 8
                if c < 0 or i >= n or c % (1 << (8 * i)) or not m: return None
                g[i][m] = c >> (8 * i)
            g = [mk(p) if p else 0 for p in g]
            if any(LO(v) < 0 or HI(v) > 255 for v in g): return None
            out += g
        return out
    def _eq_hook(self, st, x, y):
        if len(x) in (7, 14, 28) and not all(iscon(v) for v in x + y):
            x, y = self.as_bytes(x), self.as_bytes(y)
            if x is None or y is None: return None
        if len(x) != 56: return None
        a, b = self.lookup_enc(x), self.lookup_enc(y)
        if a is None or b is None: return None
        order = {'enc': 0, 'raw': 1, 'const': 2}
        if order[a[0]] > order[b[0]]: a, b = b, a
        if a[0] == 'const': return int(a[1] == b[1])
        if a[0] == 'enc':
            if b[0] == 'enc': d = a[1] - b[1]
            elif b[0] == 'const':
                if b[1] >= PP: return 0
                d = a[1] - self.ctx.const(b[1])
            else:
                q = self.raw_value(b[1])
                # bytes equal the canonical encoding of a  <=>  bytes canonical and value equal
                return self.boolvar(lambda: int(bool(self.canon_bit(b[1]) and (a[1] - q).is_zero())), 'eqraw')
            return self.boolvar(lambda: int(d.is_zero()), 'eq')
        return None

    # ---- contracts
    def fe_sig(self, idx):
        inst = self.prog.insts[idx]
        c = inst.get('_fesig')
        if c is None:
            c = False
            if inst.get('body') and inst['crate'] == 'ed448_goldilocks' and not CLOSURE(inst['name']):
                b = inst['body']
                ps = [self.ty.strip(t) for t in b['locals'][1:1 + b['argc']]]
                ok = True; n = 0
                for mode, t in ps:
                    if t == self.ty.fe: n += 1
                    elif self.ty.is_bytes(t, 56): n += 1
                    elif t == self.ty.choice or self.prog.intinfo(t): ok = ok and mode == 'val'
                    else: ok = False
                rt = b['locals'][0]; R = self.prog.tys[rt]
                ok = ok and n and (rt == self.ty.fe or self.ty.is_bytes(rt, 56) or R['k'] == 'tuple' and not R['f'])
                if ok: c = ps
            inst['_fesig'] = c
        return c
    def has_fev(self, st, args, ps):
        for a, (mode, t) in zip(args, ps):
            if t == self.ty.fe:
                v = a if mode == 'val' else self.load(st, a)
                if isinstance(v, FEV): return True
        return False
    def pred_sig(self, idx):
        """argument modes of a function from field elements to a truth value"""
        inst = self.prog.insts[idx]
        c = inst.get('_predsig')
        if c is None:
            c = False
            if inst.get('body') and inst['crate'] == 'ed448_goldilocks' and not CLOSURE(inst['name']):
                b = inst['body']
                rt = b['locals'][0]
                if b['argc'] in (1, 2) and (rt == self.ty.choice or self.prog.tys[rt]['s'] == 'bool'):
                    ps = [self.ty.strip(t) for t in b['locals'][1:1 + b['argc']]]
                    if all(t == self.ty.fe and m in ('val', 'ref') for m, t in ps): c = [m for m, _ in ps]
            inst['_predsig'] = c
        return c
    def call_inst(self, st, idx, args, loc=''):
        ms = self.pred_sig(idx)
        if ms:
            vs = [a if m == 'val' else self.load(st, a) for m, a in zip(ms, args)]
            if any(isinstance(v, FEV) for v in vs) and not any(isinstance(v, Ite) for v in vs):
                vs = [self.fe_value(v) for v in vs]
                k = prove_pred(self.fc, idx, tuple(ms), tuple(self.fc.widen(b) for _, b in vs))
                if k is not None:
                    name = self.prog.insts[idx]['name']
                    self.used[name] = self.used.get(name, 0) + 1
                    r = self.boolvar(lambda: int(PREDS[k](*[q for q, _ in vs])), 'pred')
                    return [(1, st, Agg([r]) if self.prog.insts[idx]['body']['locals'][0] == self.ty.choice else r)]
        ps = self.fe_sig(idx)
        if ps:
            # symbolic bytes are abstracted too
            opq = self.has_fev(st, args, ps)
            if not opq:
                for a, (mode, t) in zip(args, ps):
                    if t != self.ty.fe and t != self.ty.choice and not self.prog.intinfo(t):
                        v = self.load(st, a) if mode != 'val' else a
                        if isinstance(v, Agg) and any(isinstance(x, Sym) for x in v.f): return self.apply(st, idx, args, ps, loc)
            if opq:
                snap = (dict(st.mem), st.facts, len(self.obls), list(self.stack))
                try: return super().call_inst(st, idx, args, loc)
                except NeedRep as e:
                    st.mem, st.facts = snap[0], snap[1]; del self.obls[snap[2]:]; self.stack[:] = snap[3]
                    if not isinstance(e.o, FEV): raise
                    r = self.apply(st, idx, args, ps, loc, e)
                    return r
        return super().call_inst(st, idx, args, loc)

    def fe_value(self, v):
        """(Q, bounds) of a field element value"""
        if isinstance(v, FEV): return v.q, v.b
        ls = self.ty.flat(v)
        if not all(isinstance(x, int) for x in ls): raise Unsupported(f'field element {v!r:.80}')
        return self.ctx.const(sum(x << (self.ty.w * i) for i, x in enumerate(ls))), tuple((x, x) for x in ls)

    def apply(self, st, idx, args, ps, loc, need=None):
        descr = []; vals = []; writes = []
        for a, (mode, t) in zip(args, ps):
            v = a if mode == 'val' else self.load(st, a)
            if t == self.ty.fe:
                if isinstance(v, Ite): v = self.force(st, v)
                q, b = self.fe_value(v)
                descr.append(('fe', mode, self.fc.widen(b))); vals.append(q)
                if mode == 'mut': writes.append(a)
            elif self.ty.is_bytes(t, 56):
                if mode == 'mut': raise NeedRep(FEV(None, None))
                e = self.lookup_enc(v.f)
                if e is None: raise Unsupported('bytes of unknown origin')
                q = self.ctx.const(e[1]) if e[0] == 'const' else e[1] if e[0] == 'enc' else self.raw_value(e[1])
                descr.append(('bytes', mode)); vals.append(q)
            else:
                if isinstance(v, Agg):
                    c = self.resolve(v.f[0])
                    v = Agg([c])
                else: c = v = self.resolve(v)
                if not iscon(c): raise Unsupported('symbolic argument of a field function')
                descr.append(('const', mode, v if not isinstance(v, Agg) else ConstChoice(c)))
        c = self.fc.get(idx, tuple(descr))
        name = self.prog.insts[idx]['name']
        if c is None:
            if need is not None: raise need
            raise Unsupported(f'no contract could be proved for {name}')
        self.used[name] = self.used.get(name, 0) + 1
        res = []
        for kk, poly, b in zip(c['kinds'], c['polys'], c['bounds']):
            q = self.ctx.const(0)
            for mm, co in poly.items():
                t = self.ctx.const(co)
                for i in mm: t = t * vals[i]
                q = q + t if q.c else t
            res.append(FEV(q, b) if kk == 'fe' else Agg(self.encode(q)))
        rt = self.prog.insts[idx]['body']['locals'][0]
        if rt == self.ty.fe or self.ty.is_bytes(rt, 56): ret = res.pop(0)
        else: ret = Agg([])
        for w in writes: self.store(st, w, res.pop(0))
        return [(1, st, ret)]

PREDS = {'equal': lambda a, b: (a - b).is_zero(), 'different': lambda a, b: not (a - b).is_zero(),
         'opposite': lambda a, b: (a + b).is_zero(),
         'zero': lambda a: a.is_zero(), 'non-zero': lambda a: not a.is_zero(),
         'negative': lambda a: a.neg_bit(), 'non-negative': lambda a: not a.neg_bit()}
def prove_pred(fc, idx, ms, bs):
    """which of the predicates a function from field elements to a truth value decides, for all values within the limb bounds"""
    key = ('pred', idx, ms, bs)
    if key in fc.memo: return fc.memo[key]
    fc.memo[key] = None
    log = fc.log; n0, nf = log.n, len(log.failed); t0 = time.time()
    name = fc.prog.insts[idx]['name']
    left = [k for k, f in PREDS.items() if f.__code__.co_argcount == len(ms)]
    r = None; nb = 0
    try:
        with VarScope():
            def body(ctx):
                ctx.hints = []
                ex = FEx(fc.prog, fc.ty, fc, ctx); st = State()
                vs = [ctx.var('ab'[i]) for i in range(len(ms))]
                o = ex.call_inst(st, idx, [FEV(v, b) if m == 'val' else Ref(ex.new_cell(st, FEV(v, b))) for v, b, m in zip(vs, bs, ms)])
                log.absorb(ex, f'{fc.backend}:{name}')
                x = o[0][2] if len(o) == 1 else None
                x = x.f[0] if isinstance(x, Agg) else x
                if isinstance(x, Sym): x = ex.resolve(x)
                left[:] = [k for k in left if iscon(x) and int(bool(PREDS[k](*vs))) == x]
                log.obl(f'{fc.backend}:{name}', 'a predicate of the values', bool(left), ctx.trace)
                if not left or len(log.failed) > nf: raise Unsupported('not a known predicate')
            nb = run_all(PP, body, 64)
        r = left[0]
    except (Unsupported, NeedRep, Undecided, Incomplete, AttributeError, IndexError, TypeError, KeyError, RecursionError): r = None
    if r is None:
        log.attempts += log.failed[nf:]
        del log.failed[nf:]; log.n = n0
    else:
        log.contracts.setdefault(f'{fc.backend}: {name}', []).append(dict(result=f'true iff {r}', bounds=[fc.bshow(b) for b in bs], time=round(time.time() - t0, 2), obligations=log.n - n0))
    fc.memo[key] = r
    return r

class ConstChoice(Agg):
    __slots__ = ()
    def __init__(self, c): super().__init__([c])
    def __eq__(self, o): return isinstance(o, ConstChoice) and self.f == o.f
    def __hash__(self): return hash(self.f)

def run_all(m, body, limit=4096):
    """enumerate every combination of decisions: body(ctx) is executed once per branch"""
    prefix = []
    n = 0
    while True:
        n += 1
        if n > limit: raise Incomplete('too many branches')
        pos = [0]; log = []
        def oracle(kind, key):
            i = len(log)
            a = prefix[i] if i < len(prefix) else True
            log.append(a)
            return a
        ctx = Ctx(m, oracle)
        body(ctx)
        # next prefix
        while log and log[-1] is False: log.pop()
        if not log: return n
        log[-1] = False
        prefix = log
