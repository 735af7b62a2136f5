"""Symbolic executor for MIR: generates and discharges the obligations of one
function against contracts.  Callees with a contract are replaced by it, all
others are inlined (their own obligations then belong to the caller)."""
import time
from sym import *
import sym
from mir import Unsupported

class Agg:
    __slots__ = ('f', 'v')
    def __init__(self, f, v=None): self.f = tuple(f); self.v = v
    def __repr__(self): return f"Agg({self.v if self.v is not None else ''}{list(self.f)})"

class Ref:
    """pointer: cell, path inside it, and for slices (start, len)"""
    __slots__ = ('cell', 'path', 'start', 'n')
    def __init__(self, cell, path=(), start=None, n=None):
        self.cell, self.path, self.start, self.n = cell, tuple(path), start, n
    def __repr__(self): return f"Ref({self.cell},{self.path},{self.start},{self.n})"
    def __eq__(self, o): return isinstance(o, Ref) and (self.cell, self.path, self.start, self.n) == (o.cell, o.path, o.start, o.n)
    def __hash__(self): return hash((self.cell, self.path))

class Ite:
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def __repr__(self): return f"Ite({self.c},{self.a},{self.b})"

class Fn:
    __slots__ = ('i',)
    def __init__(self, i): self.i = i

class Uninit:
    def __repr__(self): return 'uninit'
UNINIT = Uninit()

class Opq:
    """opaque value of a library type, carrying its mathematical meaning.  Subclasses
    may implement merge(c, other) and project(ex, st, i)."""
    def merge(self, c, other): return None
    def project(self, ex, st, i): raise NeedRep(self)

class NeedRep(Unsupported):
    def __init__(self, o): super().__init__(f"representation of opaque {o!r} accessed"); self.o = o

class IterV(Opq):
    """slice iterator over elements start..end of the array at ref"""
    __slots__ = ('ref', 'i', 'j')
    def __init__(self, ref, i, j): self.ref, self.i, self.j = ref, i, j
    def __repr__(self): return f"IterV({self.ref},{self.i},{self.j})"
    def __eq__(self, o): return isinstance(o, IterV) and (self.ref, self.i, self.j) == (o.ref, o.i, o.j)
    __hash__ = None

class ValIter(Opq):
    """by-value iterator"""
    def __init__(self, vals, i, j): self.vals, self.i, self.j = tuple(vals), i, j

class VecV(Opq):
    def __init__(self, items=()): self.items = tuple(items)
    def __repr__(self): return f"VecV({len(self.items)})"

class State:
    __slots__ = ('mem', 'facts', 'dom')
    def __init__(self, mem=None, facts=None, dom=None):
        self.mem = mem if mem is not None else {}
        self.facts = facts or Facts()
        self.dom = dom or {}        # restrictions of tabulated quantities on this path
    def fork(self): return State(dict(self.mem), self.facts, dict(self.dom))
    def edom(self, var):
        d = self.dom.get(var.id)
        return d if d is not None else range(var.lo, var.hi + 1)

class Obl:
    __slots__ = ('fn', 'kind', 'loc', 'ok', 'detail')
    def __init__(self, fn, kind, loc, ok, detail=''):
        self.fn, self.kind, self.loc, self.ok, self.detail = fn, kind, loc, ok, detail
    def __repr__(self): return f"<{'ok' if self.ok else 'FAILED'} {self.kind} {self.fn} {self.loc} {self.detail}>"

class Frame:
    __slots__ = ('inst', 'body', 'id', 'idx', 'bb')
    def __init__(self, idx, inst, id): self.idx, self.inst, self.body, self.id, self.bb = idx, inst, inst['body'], id, 0

import re
CLOSURE = re.compile(r'\{closure#\d+\}$').search

def smt_refute(facts):
    import smt
    return smt.refute(facts, (), 15000)
DEBUG_PANIC = []
class Limit(Unsupported): pass

PANICS = ('core::panicking::', 'std::option::unwrap_failed', 'core::option::unwrap_failed', 'core::result::unwrap_failed', 'core::slice::index::slice_index_fail',
          'core::slice::copy_from_slice_impl::len_mismatch_fail', 'core::option::expect_failed', 'core::slice::index::slice_', 'alloc::raw_vec::handle_error', 'std::rt::panic', 'std::rt::begin_panic')

class Exec:
    def __init__(self, prog, contracts=None, max_steps=4_000_000):
        self.prog = prog
        self.contracts = contracts or {}
        self.obls = []
        self.steps = 0; self.max_steps = max_steps
        self.fid = 0; self.cid = 0
        self.stack = []
        self.used = {}          # contracts applied -> count
        self.inlined = {}       # functions inlined -> count
        self.trusted = {}       # natively modelled functions
        self.constcells = {}
        self.panics_ok = False  # when True a reachable panic ends the path instead of failing
        self.panic_paths = []
        self.depth_limit = 60

    # ------------------------------------------------------------ obligations
    def oblige(self, kind, ok, loc='', detail=''):
        fn = self.stack[-1].inst['tdef'] if self.stack else ''
        self.obls.append(Obl(fn, kind, loc, bool(ok), detail))
        return ok

    def new_cell(self, st, val, tag='h'):
        self.cid += 1
        c = (tag, self.cid)
        st.mem[c] = val
        return c

    # ------------------------------------------------------------ places
    def load(self, st, ref):
        v = st.mem.get(ref.cell, UNINIT)
        for p in ref.path: v = self.proj(st, v, p)
        if ref.start is not None: return self.subarray(v, ref.start, ref.n)
        return v

    def subarray(self, v, s, n):
        """elements s..s+n of an array value"""
        if isinstance(v, (Agg, VecV)):
            f = v.f if isinstance(v, Agg) else v.items
            if not (iscon(s) and iscon(n)) or s < 0 or s + n > len(f): raise Unsupported('slice bounds')
            return v if s == 0 and n == len(f) and isinstance(v, Agg) else Agg(f[s:s + n])
        if isinstance(v, Ite): return self.merge(v.c, self.subarray(v.a, s, n), self.subarray(v.b, s, n))
        if n == 0: return Agg([])
        raise Unsupported(f'slice of {v!r:.60}')

    def proj(self, st, v, p):
        if isinstance(v, Agg):
            if isinstance(p, Sym): return self.sym_index(st, v.f, p)
            if p >= len(v.f): raise Unsupported('projection out of range')
            return v.f[p]
        if isinstance(v, Ite):
            if isinstance(v.a, Agg) and isinstance(v.b, Agg):
                # arms of different variants: the caller has switched on the discriminant
                oka, okb = self.isint(p) and p < len(v.a.f), self.isint(p) and p < len(v.b.f)
                if oka and okb: return self.merge(v.c, v.a.f[p], v.b.f[p])
                if oka: return v.a.f[p]
                if okb: return v.b.f[p]
            return self.merge(v.c, self.proj(st, v.a, p), self.proj(st, v.b, p))
        if isinstance(v, VecV):
            return v.items[p]
        if isinstance(v, Opq): return v.project(self, st, p)
        raise Unsupported(f'projection {p} of {v!r:.80}')

    def isint(self, p): return isinstance(p, int)

    def sym_index(self, st, items, p):
        a, b = bound(p.p, st.facts) if p.hi - p.lo > 64 else (p.lo, p.hi)
        a, b = max(a, 0), min(b, len(items) - 1)
        r = items[b]
        for i in range(b - 1, a - 1, -1):
            r = self.merge(eq0(sub(p, i)), items[i], r)
        return r

    def store(self, st, ref, val):
        if ref.start is not None:
            base = Ref(ref.cell, ref.path); o = self.load(st, base)
            f = list(o.f if isinstance(o, Agg) else o.items)
            if not isinstance(val, Agg) or len(val.f) != ref.n: raise Unsupported('slice store')
            f[ref.start:ref.start + ref.n] = val.f
            self.store(st, base, Agg(f, o.v) if isinstance(o, Agg) else VecV(f)); return
        if not ref.path: st.mem[ref.cell] = val; return
        st.mem[ref.cell] = self._upd(st, st.mem.get(ref.cell, UNINIT), ref.path, val)

    def _upd(self, st, v, path, val):
        if not path: return val
        p = path[0]
        if isinstance(v, Opq) and not isinstance(v, VecV):
            v = self.materialise(st, v)
        if isinstance(v, Agg):
            f = list(v.f)
            if isinstance(p, Sym):
                for i in range(max(0, p.lo), min(len(f) - 1, p.hi) + 1):
                    f[i] = self.merge(eq0(sub(p, i)), self._upd(st, f[i], path[1:], val), f[i])
            else:
                while len(f) <= p: f.append(UNINIT)
                f[p] = self._upd(st, f[p], path[1:], val)
            return Agg(f, v.v)
        if isinstance(v, VecV):
            f = list(v.items); f[p] = self._upd(st, f[p], path[1:], val); return VecV(f)
        if v is UNINIT:
            f = [UNINIT] * (p + 1)
            f[p] = self._upd(st, UNINIT, path[1:], val)
            return Agg(f)
        if isinstance(v, Ite):
            return self.merge(v.c, self._upd(st, v.a, path, val), self._upd(st, v.b, path, val))
        raise Unsupported(f'store into {v!r:.80}')

    def materialise(self, st, o):
        raise NeedRep(o)

    def place(self, st, fr, pl):
        """-> Ref"""
        loc, projs = pl
        r = Ref((fr.id, loc))
        for p in projs:
            k = p[0]
            if k == 'deref':
                t = self.load(st, r)
                t = self.force(st, t)
                if isinstance(t, Agg) and len(t.f) >= 1 and not isinstance(t, Ref):   # Box / NonNull wrappers
                    while isinstance(t, Agg): t = t.f[0]
                if not isinstance(t, Ref): raise Unsupported(f'deref of {t!r:.80}')
                r = t
            elif k == 'field':
                if r.start is not None: raise Unsupported('field of slice')
                r = Ref(r.cell, r.path + (p[1],))
            elif k == 'index':
                i = st.mem[(fr.id, p[1])]
                r = self.elem(st, r, i)
            elif k == 'cindex':
                off, minlen, fromend = p[1], p[2], p[3]
                if fromend: off = self.length(st, r) - off
                r = self.elem(st, r, off)
            elif k == 'subslice':
                n = self.length(st, r)
                a, b = p[1], (n - p[2] if p[3] else p[2])
                s = r.start or 0
                r = Ref(r.cell, r.path, s + a, b - a)
            elif k == 'downcast': pass
            else: raise Unsupported('projection ' + k)
        return r

    def elem(self, st, r, i):
        if r.start is not None: i = add(i, r.start)
        return Ref(r.cell, r.path + (i,))

    def length(self, st, r):
        if r.start is not None: return r.n
        v = self.load(st, r)
        if isinstance(v, Agg): return len(v.f)
        if isinstance(v, VecV): return len(v.items)
        raise Unsupported(f'length of {v!r:.60}')

    def force(self, st, v):
        """resolve an Ite on the current path if its condition is decided"""
        while isinstance(v, Ite):
            d = self.decide(st, v.c)
            if d is None:
                def target(w):
                    if isinstance(w, Ref) and w.cell[0] != 'ro': return self.load(st, w)
                    if isinstance(w, Ref): return self.load(st, w)
                    if isinstance(w, Ite):
                        a, b = target(w.a), target(w.b)
                        if a is not None and b is not None: return self.merge(w.c, a, b)
                    return None
                t = target(v)
                # merge the targets into a temporary (reads only)
                return v if t is None else Ref(self.new_cell(st, t, 'ro'))
            v = v.a if d else v.b
        return v

    def decide(self, st, c):
        """truth value of a 0/1 value on this path, or None"""
        if iscon(c): return bool(c)
        if c.lo >= 1: return True
        if c.hi <= 0: return False
        if c.__class__ is EnumV:
            vs = {bool(c.tab[i - c.var.lo]) for i in st.edom(c.var)}
            return vs.pop() if len(vs) == 1 else None
        if not st.facts.fs and not st.facts.sub: return None
        a, b = bound(c.p, st.facts)
        if a >= 1: return True
        if b <= 0: return False
        return None

    # ------------------------------------------------------------ values
    def merge(self, c, a, b):
        """c ? a : b"""
        if a is b: return a
        if iscon(c): return a if c else b
        if a is UNINIT: return b
        if b is UNINIT: return a
        if isinstance(a, (int, Sym)) and isinstance(b, (int, Sym)): return ite(c, a, b)
        if isinstance(a, Agg) and isinstance(b, Agg) and a.v == b.v and len(a.f) == len(b.f):
            return Agg([self.merge(c, x, y) for x, y in zip(a.f, b.f)], a.v)
        if isinstance(a, (Ref, IterV)) and a == b: return a
        if isinstance(a, VecV) and isinstance(b, VecV) and len(a.items) == len(b.items):
            return VecV([self.merge(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Opq):
            r = a.merge(c, b)
            if r is not None: return r
        if isinstance(b, Opq):
            r = b.merge(sub(1, c), a)
            if r is not None: return r
        return Ite(c, a, b)

    def const(self, st, t, v):
        if 'i' in v: return int(v['i'])
        if 'b' in v: return int(v['b'])
        T = self.prog.tys[t]
        if 'a' in v:
            if T['k'] == 'array': return Agg([self.const(st, T['e'], x) for x in v['a']])
            return Agg([self.const(st, ft, x) for ft, x in zip(T['f'], v['a'])])
        if 'v' in v:
            fs = T['v'][v['v']]['f']
            return Agg([self.const(st, f[1], x) for f, x in zip(fs, v['f'])], v['v'] if T['ak'] != 'struct' else None)
        if 'ref' in v:
            key = id(v)
            c = self.constcells.get(key)
            if c is None:
                self.cid += 1; c = ('k', self.cid); self.constcells[key] = (c, v)
            else: c = c[0]
            e = T.get('e')
            if c not in st.mem:
                E = self.prog.tys[e]
                if 'slice' in v and E['k'] == 'slice':
                    st.mem[c] = Agg([self.const(st, E['e'], x) for x in v['ref']['a']])
                else: st.mem[c] = self.const(st, e, v['ref'])
            if 'slice' in v: return Ref(c, (), 0, v['slice'])
            return Ref(c)
        if 'z' in v:
            if T['k'] == 'tuple': return Agg([])
            if T['k'] == 'adt': return Agg([self.const(st, f[1], {'z': 1}) for f in T['v'][0]['f']]) if T['v'] else Agg([])
            if T['k'] == 'fndef': return Fn(T['i'])
            return Agg([])
        if 'fn' in v: return Fn(v['fn'])
        if 'str' in v: return Ref(self.new_cell(st, Agg([ord(ch) for ch in v['str']]), 'str'), (), 0, len(v['str']))
        raise Unsupported(f'constant {str(v)[:80]}')

    def operand(self, st, fr, o):
        k = o[0]
        if k in ('copy', 'move'): return self.load(st, self.place(st, fr, o[1]))
        if k == 'const': return self.const(st, o[1], o[2])
        if k == 'rtcheck': return 0
        raise Unsupported('operand ' + k)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv, loc):
        k = rv[0]
        if k == 'use': return self.operand(st, fr, rv[1])
        if k in ('ref', 'addrof'): return self.place(st, fr, rv[1])
        if k == 'agg':
            kind = rv[1]; vals = [self.operand(st, fr, o) for o in rv[2]]
            if kind[0] == 'adt':
                T = self.prog.tys[kind[1]]
                return Agg(vals, kind[2] if T['ak'] == 'enum' else None)
            if kind[0] == 'rawptr':
                r, meta = vals
                if isinstance(meta, (int, Sym)) and isinstance(r, Ref):
                    if r.path and r.start is None and isinstance(r.path[-1], int):
                        return Ref(r.cell, r.path[:-1], r.path[-1], meta)
                    return Ref(r.cell, r.path, r.start or 0, meta)
                return r
            return Agg(vals)
        if k == 'bin': return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), rv[4], loc)
        if k == 'cbin':
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            return self.checked(st, rv[1], a, b, rv[4])
        if k == 'un':
            v = self.operand(st, fr, rv[2])
            if rv[1] == 'PtrMetadata':
                v = self.force(st, v)
                T = self.prog.tys[rv[3]] if len(rv) > 3 else None
                if isinstance(v, Ref):
                    if v.start is not None: return v.n
                    if T is not None and T['k'] in ('ref', 'ptr') and self.prog.tys[T['e']]['k'] in ('slice', 'str'): return self.length(st, v)
                return Agg([])
            w, sg = self.prog.intinfo(rv[3])
            if rv[1] == 'Not':
                if self.prog.tys[rv[3]]['k'] == 'bool': return sub(1, v)
                return sub(-1, v) if sg else sub((1 << w) - 1, v)
            if rv[1] == 'Neg': return wrap(neg(self.tabulated(v)), w, sg)
            raise Unsupported('unop ' + rv[1])
        if k == 'cast': return self.cast(st, rv[1], self.operand(st, fr, rv[2]), rv[3], rv[4])
        if k == 'discr': return self.discr(st, self.load(st, self.place(st, fr, rv[1])), rv[2])
        if k == 'len': return self.length(st, self.place(st, fr, rv[1]))
        if k == 'repeat': return Agg([self.operand(st, fr, rv[1])] * rv[2])
        raise Unsupported('rvalue ' + k)

    def discr(self, st, v, t):
        v = self.force(st, v)
        if isinstance(v, Ite): return self.merge(v.c, self.discr(st, v.a, t), self.discr(st, v.b, t))
        if isinstance(v, Agg):
            if v.v is None: return 0
            return int(self.prog.tys[t]['v'][v.v]['d'])
        if isinstance(v, (int, Sym)): return v
        T = self.prog.tys[t]
        if v is UNINIT and T.get('size') == 0 and T['k'] == 'adt':      # a type with one inhabited, empty variant
            return next(int(x['d']) for x in T['v'] if not x['f'])
        raise Unsupported(f'discriminant of {v!r:.60}')

    def refine(self, st, x, lo, hi):
        """try to show x in [lo,hi] using facts; returns x with tightened interval"""
        if iscon(x): return x
        if x.lo >= lo and x.hi <= hi: return x
        if x.__class__ is EnumV: return x
        if lo == 0 and x.lo == -1 and zc(add(x, 1)): return x      # (accumulated difference) - 1
        tighten_var(x.p)
        a, b = bound(x.p, st.facts, (lo, hi))
        a, b = max(a, x.lo), min(b, x.hi)
        if not (a >= lo and b <= hi):
            if prove(('range', x.p, lo, hi), st.facts, 3): a, b = max(a, lo), min(b, hi)
        if a > x.lo or b < x.hi: return mk(x.p, a, b)
        return x

    def checked(self, st, op, a, b, t):
        w, sg = self.prog.intinfo(t)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        if op in ('Shl', 'Shr'): raise Unsupported('checked shift')
        r = {'Add': add, 'Sub': sub, 'Mul': mul}[op](a, b)
        r = self.refine(st, r, lo, hi)
        if LO(r) >= lo and HI(r) <= hi: return Agg([r, 0])
        over = 0
        if HI(r) > hi: over = add(over, lt0(sub(hi, r)))
        if LO(r) < lo: over = add(over, lt0(sub(r, lo)))
        if isinstance(over, Sym) and over.__class__ is not EnumV: over = mk(over.p, 0, 1)
        return Agg([wrap(r, w, sg), over])

    def binop(self, st, op, a, b, t, loc):
        if isinstance(a, (Ref,)) or isinstance(b, (Ref,)):
            if op in ('Eq', 'Ne') and isinstance(a, Ref) and isinstance(b, Ref):
                return int((a == b) == (op == 'Eq'))
            if op == 'Offset' and isinstance(a, Ref): return self.ptr_offset(a, b)
            if op in ('Lt', 'Le', 'Gt', 'Ge') and isinstance(a, Ref) and isinstance(b, Ref) and a.cell == b.cell and a.path[:-1] == b.path[:-1] and len(a.path) == len(b.path) > 0 and iscon(a.path[-1]) and iscon(b.path[-1]):
                x, y = a.path[-1], b.path[-1]
                return int({'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op])
            raise Unsupported(f'pointer {op}')
        if isinstance(a, (Ite,)) or isinstance(b, Ite):
            raise Unsupported('binop on ite')
        if not isinstance(a, (int, Sym)) or not isinstance(b, (int, Sym)):
            raise Unsupported(f'binop {op} on {a!r:.60} {b!r:.60}')
        info = self.prog.intinfo(t)
        w, sg = info if info else (64, False)
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            r = {'A': add, 'S': sub, 'M': mul}[op[0]](a, b)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            if LO(r) < lo or HI(r) > hi: r = self.refine(st, r, lo, hi)
            return wrap(r, w, sg)
        if op == 'BitAnd': return band(self.tighten(st, a), self.tighten(st, b), w, sg)
        if op == 'BitOr': return bor(a, b, w, sg)
        if op == 'BitXor': return bxor(a, b, w, sg)
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            if not iscon(b): return self.symshift(st, op, a, b, w, sg)
            b &= (w - 1)
            if op.startswith('Shl'): return wrap(mul(a, 1 << b), w, sg)
            return shr(a, b)
        if op == 'Eq': return note_eq(eq0(sub(a, b)), a, b)
        if op == 'Ne': return sub(1, note_eq(eq0(sub(a, b)), a, b))
        if op == 'Lt': return lt0(sub(a, b))
        if op == 'Ge': return sub(1, lt0(sub(a, b)))
        if op == 'Gt': return lt0(sub(b, a))
        if op == 'Le': return sub(1, lt0(sub(b, a)))
        if op == 'Cmp':
            if iscon(a) and iscon(b):
                return Agg([], 0 if a < b else 1 if a == b else 2)
            return Ite(lt0(sub(a, b)), Agg([], 0), Ite(eq0(sub(a, b)), Agg([], 1), Agg([], 2)))
        if op in ('Div', 'Rem'):
            if iscon(a) and iscon(b):
                q = abs(a) // abs(b); q = q if (a < 0) == (b < 0) else -q
                return q if op == 'Div' else a - b * q
            if iscon(b) and b > 0 and LO(a) >= 0:
                if b & (b - 1) == 0:
                    k = b.bit_length() - 1
                    return shr(a, k) if op == 'Div' else mod2k(a, k)
                # a = b q + r with 0 <= r < b, as an axiom on fresh q
                key = ('div', pkey(a.p), b)
                q = sym._CMPS.get(key)
                if q is None:
                    q = fresh(a.lo // b, a.hi // b, kind='div', data=(a.p, b))
                    sym._CMPS[key] = q
                self.axiom(st, padd(a.p, q.p, -b), 0, b - 1)
                return q if op == 'Div' else mk(padd(a.p, q.p, -b), 0, b - 1)
            raise Unsupported('symbolic division')
        raise Unsupported('binop ' + op)

    def copy_items(self, st, src, dst, n):
        """memmove of n elements"""
        if not iscon(n): raise Unsupported('copy of symbolic length')
        src, dst = self.force(st, src), self.force(st, dst)
        while isinstance(src, Agg): src = src.f[0]
        while isinstance(dst, Agg): dst = dst.f[0]
        if n == 1 and src.start is None and dst.start is None:
            self.store(st, dst, self.load(st, src)); return
        vals = [self.load(st, self.ptr_offset(src, i)) for i in range(n)]
        for i, v in enumerate(vals): self.store(st, self.ptr_offset(dst, i), v)

    def ptr_offset(self, a, k):
        if a.start is not None: raise Unsupported('offset of a slice pointer')
        if iscon(k) and k == 0: return a
        if not a.path or not isinstance(a.path[-1], (int, Sym)): raise Unsupported('pointer offset')
        return Ref(a.cell, a.path[:-1] + (add(a.path[-1], k),))

    def axiom(self, st, p, lo, hi): st.facts = st.facts.assume(p, lo, hi)

    def tighten(self, st, a):
        """for a mask operand: try to learn that it is two-valued"""
        if iscon(a) or a.__class__ is EnumV or twoval(a): return a
        if a.lo >= -4 and a.hi <= 4:
            return self.refine(st, a, -1, 0) if a.lo < 0 else self.refine(st, a, 0, 1)
        return a

    def symshift(self, st, op, a, b, w, sg):
        if HI(b) - LO(b) > 70: raise Unsupported('symbolic shift')
        r = None
        for v in range(HI(b), LO(b) - 1, -1):
            x = self.binop_shift(op, a, v, w, sg)
            r = x if r is None else ite(eq0(sub(b, v)), x, r)
        return r
    def binop_shift(self, op, a, b, w, sg):
        b &= w - 1
        return wrap(mul(a, 1 << b), w, sg) if op.startswith('Shl') else shr(a, b)

    def tabulated(self, v): return v
    def cast(self, st, kind, v, to, frm):
        if kind == 'IntToInt':
            v = self.force(st, v)
            if isinstance(v, Agg): v = self.discr(st, v, frm)
            w, sg = self.prog.intinfo(to)
            return wrap(self.tabulated(v), w, sg)
        if kind.startswith('PC:Unsize'):
            v = self.force(st, v)
            T, F = self.prog.tys[to], self.prog.tys[frm]
            if T['k'] in ('ref', 'ptr') and self.prog.tys[T['e']]['k'] == 'slice':
                if isinstance(v, Ref) and v.start is not None: return v      # reference to a part of an array
                n = self.prog.tys[F['e']]['n']
                return Ref(v.cell, v.path, 0, n)
            return v
        if kind.startswith('PC:') or kind in ('PtrToPtr', 'FnPtrToPtr'):
            T, F = self.prog.tys[to], self.prog.tys[frm]
            v = self.force(st, v)
            if isinstance(v, Ref) and v.start is None and T['k'] in ('ref', 'ptr') and F['k'] in ('ref', 'ptr'):
                # pointer to an array, seen as a pointer to its first element; wrappers of one field
                e, f = T['e'], F['e']
                while f != e:
                    TF = self.prog.tys[f]
                    if TF['k'] == 'array':
                        if self.same_layout(TF['e'], e): return Ref(v.cell, v.path + (0,))
                    break
            if isinstance(v, Ref) and v.start is not None and T['k'] in ('ref', 'ptr'):
                e = self.prog.tys[T['e']]['k']
                if e not in ('slice', 'str'):
                    if e == 'array': # slice ptr to array ptr
                        n = self.prog.tys[T['e']]['n']
                        return Ref(v.cell, v.path, v.start, n) if not (v.start == 0 and self.length(st, Ref(v.cell, v.path)) == n) else Ref(v.cell, v.path)
                    return Ref(v.cell, v.path + (v.start,))
            return v
        if kind == 'Transmute':
            return self.transmute(st, v, to, frm)
        if kind == 'BoxDerefTransmute':
            v = self.force(st, v)
            while isinstance(v, Agg) and v.f: v = v.f[0]
            return v
        raise Unsupported('cast ' + kind)

    def nonzero(self, v): return Agg([Agg([Agg([v])])], 1) if v else Agg([], 0)

    def same_layout(self, a, b):
        """are a and b the same type up to MaybeUninit / ManuallyDrop wrappers?"""
        def strip(t):
            while True:
                T = self.prog.tys[t]
                n = T.get('n', '') if T['k'] == 'adt' else ''
                if n.split('<')[0].split('::')[-1] in ('MaybeUninit', 'ManuallyDrop', 'MaybeDangling', 'UnsafeCell'):
                    fs = [f for v in T['v'] for f in v['f'] if self.prog.tys[f[1]].get('size') != 0]
                    if len(fs) == 1: t = fs[0][1]; continue
                return t
        return strip(a) == strip(b)

    def transmute(self, st, v, to, frm):
        T, F = self.prog.tys[to], self.prog.tys[frm]
        if to == frm: return v
        if isinstance(v, Ref) and ('pattern_type!(*' in T['s'][:20] or 'pattern_type!(*' in F['s'][:20]) and (T['k'] in ('ptr', 'ref', 'other')) and F['k'] in ('ptr', 'ref', 'other'): return v
        if isinstance(v, (int, Sym)) and ('pattern_type!(u' in T['s'][:20] or 'pattern_type!(u' in F['s'][:20]) and T['k'] in ('uint', 'other') and F['k'] in ('uint', 'other'): return v
        ti, fi = self.prog.intinfo(to), self.prog.intinfo(frm)
        if ti and isinstance(v, Ref) and F['k'] in ('ptr', 'ref') and ti[0] == 64: return 1 << 20     # address, as seen by null and alignment checks
        if fi and T['s'].startswith('std::option::Option<std::num::NonZero<') and iscon(v):
            return self.nonzero(v)
        if ti and isinstance(v, Agg) and v.v is not None and F['k'] == 'adt' and F['ak'] == 'enum' and not v.f: return wrap(self.discr(st, v, frm), *ti)
        if ti and fi: return wrap(v, *ti)
        if fi and T['k'] == 'array':      # int -> bytes (little endian)
            ew = self.prog.intinfo(T['e'])[0]
            return Agg([wrap(shr(v, ew * i), ew, False) for i in range(T['n'])])
        if ti and F['k'] == 'array':
            ew, _ = self.prog.intinfo(F['e'])
            r = 0
            for i, x in enumerate(v.f): r = add(r, mul(mod2k(x, ew), 1 << (ew * i)))
            return wrap(r, *ti)
        if T['k'] in ('ref', 'ptr') and F['k'] in ('ref', 'ptr'): return self.cast(st, 'PtrToPtr', v, to, frm)
        if T['k'] == 'adt' and len(T['v']) == 1 and len([f for f in T['v'][0]['f'] if self.prog.tys[f[1]].get('size') != 0]) == 1 and F['k'] != 'adt':
            fs = T['v'][0]['f']
            return Agg([self.transmute(st, v, f[1], frm) if self.prog.tys[f[1]].get('size') != 0 else Agg([]) for f in fs])
        if F['k'] == 'adt' and isinstance(v, Agg) and v.v is None:
            fs = F['v'][0]['f']; nz = [i for i, f in enumerate(fs) if self.prog.tys[f[1]].get('size') != 0]
            if len(nz) == 1: return self.transmute(st, v.f[nz[0]], to, fs[nz[0]][1])
        if T['k'] == 'array' and F['k'] == 'array' and isinstance(v, Agg):
            if T['n'] == F['n']: return Agg([self.transmute(st, x, T['e'], F['e']) for x in v.f])
            fl = self.flat_bytes(v, frm)
            return self.from_flat(fl, to)
        raise Unsupported(f"transmute {F['s']} -> {T['s']}")

    def flat_bytes(self, v, t):
        T = self.prog.tys[t]
        if self.prog.intinfo(t):
            w = self.prog.intinfo(t)[0]
            return [mod2k(shr(v, 8 * i), 8) for i in range(w // 8)]
        if T['k'] == 'array': return [b for x in v.f for b in self.flat_bytes(x, T['e'])]
        raise Unsupported('flatten ' + T['s'])
    def from_flat(self, bs, t):
        T = self.prog.tys[t]
        i = self.prog.intinfo(t)
        if i:
            r = 0
            for j, x in enumerate(bs): r = add(r, mul(x, 1 << (8 * j)))
            return wrap(r, *i)
        if T['k'] == 'array':
            n = T['n']; m = len(bs) // n
            return Agg([self.from_flat(bs[j * m:(j + 1) * m], T['e']) for j in range(n)])
        raise Unsupported('unflatten ' + T['s'])

    # ------------------------------------------------------------ control
    def call_inst(self, st, idx, args, loc=''):
        """-> list of (cond, State, ret) outcomes"""
        inst = self.prog.insts[idx]
        name, tdef = inst['name'], inst['tdef']
        c = self.contracts.get(tdef)
        if c is None:
            for pred, fn in self.contracts.get('*', ()):
                if pred(inst): c = fn; break
        if c is not None and not (self.stack == [] ):
            r = c(self, st, inst, args)
            if r is not NotImplemented:
                self.used[name] = self.used.get(name, 0) + 1
                return r
        import models
        m = models.lookup(inst)
        if m is not None:
            r = m(self, st, inst, args)
            if r is not NotImplemented:
                self.trusted[tdef] = self.trusted.get(tdef, 0) + 1
                return r
        if any(name.startswith(p) for p in PANICS):
            self.panic(st, loc, name); return []
        if not inst.get('body'):
            raise Unsupported(f"no body for {name}")
        return self.inline(st, idx, args)

    def inline(self, st, idx, args):
        inst = self.prog.insts[idx]
        body = inst['body']
        if len(self.stack) > self.depth_limit: raise Limit('call depth')
        if self.stack: self.inlined[inst['name']] = self.inlined.get(inst['name'], 0) + 1
        self.fid += 1
        fr = Frame(idx, inst, self.fid)
        sp = body.get('spread')
        if isinstance(sp, int) and sp > 0:
            # the spread argument collects the remaining args as a tuple
            k = sp - 1
            args = list(args[:k]) + [Agg(args[k:])] if not (len(args) == body['argc'] and isinstance(args[k], Agg)) else args
        if inst['kind'] == 'item' and CLOSURE(inst['name']) and len(args) == 2 and isinstance(args[1], Agg):
            args = [args[0]] + list(args[1].f)
        elif len(args) != body['argc']:
            # closure call through Fn* traits: args arrive as (self, tuple)
            if len(args) == 2 and isinstance(args[1], Agg): args = [args[0]] + list(args[1].f)
        if len(args) != body['argc']: raise Unsupported(f"argument count {inst['name']} {len(args)} {body['argc']}")
        for i, a in enumerate(args): st.mem[(fr.id, i + 1)] = a
        self.stack.append(fr)
        try:
            outs = self.run(st, fr, 0, -1)
        finally:
            self.stack.pop()
        res = []
        for c, s in outs:
            r = s.mem.get((fr.id, 0), Agg([]))
            res.append((c, s, r))
        nl = len(body['locals'])
        for c, s, r in res:
            for i in range(nl): s.mem.pop((fr.id, i), None)
        if len(res) > 1: res = self.merge_outcomes(st, res)
        return res

    def panic(self, st, loc, why):
        if DEBUG_PANIC: DEBUG_PANIC.append(st.facts)
        if self.panics_ok:
            self.panic_paths.append((st.facts, loc, why)); return
        if refute(st.facts) or self.contradiction(st) or st.facts.fs and smt_refute(st.facts):
            self.oblige('unreachable-panic', True, loc, why); return
        self.oblige('no-panic', False, loc, why)

    def contradiction(self, st): return False

    def merge_outcomes(self, base, res):
        """merge [(cond, state, ret)] (disjoint, exhaustive up to panics)"""
        if len(res) <= 1: return res
        try:
            if len(res) > 2 and all(iscon(c) or c.__class__ is not EnumV for c, _, _ in res):
                return self.merge_many(base, res)
            c, s, r = res[-1]
            mem = dict(s.mem)
            for (c1, s1, r1) in reversed(res[:-1]):
                out = {}
                for k in set(mem) | set(s1.mem):
                    a, b = s1.mem.get(k, UNINIT), mem.get(k, UNINIT)
                    out[k] = a if a is b else self.merge(c1, a, b)
                mem = out
                r = self.merge(c1, r1, r)
            tot = 0
            for c1, _, _ in res: tot = add(tot, c1)
            if isinstance(tot, Sym) and tot.__class__ is not EnumV: tot = mk(tot.p, 0, 1)
            # cond of the merged outcome relative to the region entry
            if tot.__class__ is EnumV and all(tot.tab[i - tot.var.lo] == 1 for i in base.edom(tot.var)): tot = 1
            return [(tot, State(mem, self.common_facts(base, res), dict(base.dom)), r)]
        except Unsupported:
            return res

    def merge_many(self, base, res):
        """the conditions are disjoint: a number is the sum of (condition x value)"""
        def comb(vals):
            if all(v is vals[0] for v in vals[1:]): return vals[0]
            if all(isinstance(v, (int, Sym)) and v.__class__ is not EnumV for v in vals):
                groups = {}
                for (c, _, _), v in zip(res, vals): groups.setdefault(v if iscon(v) else id(v), []).append((c, v))
                if len(groups) == 1: return vals[0]
                # sum over all but one group, relative to that one (the conditions add up to one)
                g0 = max(groups.values(), key=lambda g: sum(1 if iscon(c) else len(c.p) for c, _ in g))
                v0 = g0[0][1]; t = v0
                for g in groups.values():
                    if g is g0: continue
                    for c, v in g: t = add(t, mul(c, sub(v, v0)))
                return mk(t.p, max(t.lo, min(map(LO, vals))), min(t.hi, max(map(HI, vals)))) if isinstance(t, Sym) and t.__class__ is not EnumV else t
            if all(isinstance(v, Agg) for v in vals) and len({(v.v, len(v.f)) for v in vals}) == 1:
                return Agg([comb(x) for x in zip(*[v.f for v in vals])], vals[0].v)
            r = vals[-1]
            for (c, _, _), v in reversed(list(zip(res[:-1], vals[:-1]))): r = self.merge(c, v, r)
            return r
        keys = set()
        for _, s, _ in res: keys |= set(s.mem)
        mem = {}
        for k in keys:
            vals = [s.mem.get(k, UNINIT) for _, s, _ in res]
            mem[k] = comb(vals)
        r = comb([x for _, _, x in res])
        tot = 0
        for c1, _, _ in res: tot = add(tot, c1)
        if isinstance(tot, Sym) and tot.__class__ is not EnumV: tot = mk(tot.p, 0, 1)
        return [(tot, State(mem, self.common_facts(base, res), dict(base.dom)), r)]

    def common_facts(self, base, res):
        fs = list(res[0][1].facts.fs)
        common = [f for f in fs if all(any(f is g for g in s.facts.fs) for _, s, _ in res[1:])]
        subs = {k: v for k, v in res[0][1].facts.sub.items() if all(s.facts.sub.get(k) == v for _, s, _ in res[1:])}
        # facts tagged as axioms about fresh variables survive
        seen = set(map(id, common))
        for _, s, _ in res:
            for f in s.facts.fs:
                if len(f) > 3 and id(f) not in seen: common.append(f); seen.add(id(f))
        return Facts(tuple(common), subs)

    def assume(self, st, c, val):
        """state restricted to c == val (c a 0/1 value); None if impossible"""
        if iscon(c): return st if bool(c) == bool(val) else None
        if c.__class__ is EnumV:
            d = [i for i in st.edom(c.var) if c.tab[i - c.var.lo] == val]
            if not d: return None
            st.dom[c.var.id] = tuple(d)
            return st
        f = st.facts
        m = [x for x in c.p if x]
        if len(m) == 1 and len(m[0]) == 1:
            vid = m[0][0]
            k = c.p[m[0]]; c0 = c.p.get((), 0)
            d = val - c0
            if d % k: return None
            if vid in f.sub:
                return st if f.sub[vid] == d // k else None
            f = f.fix(vid, d // k)
        else:
            f = f.assume(c.p, val, val)
            if all(len(x) <= 1 for x in c.p) and len(m) <= 4:
                # an extreme value of a linear form fixes its variables
                for mx in (True, False):
                    ext = {x[0]: ((VARS[x[0]].hi if (k > 0) == mx else VARS[x[0]].lo)) for x, k in c.p.items() if x}
                    if c.p.get((), 0) + sum(k * ext[x[0]] for x, k in c.p.items() if x) == val:
                        for v, e in ext.items():
                            if v not in f.sub: f = f.fix(v, e)
                            elif f.sub[v] != e: return None
                        break
        if infeasible(f): return None
        st.facts = f
        return st

    def run(self, st, fr, bb, stop):
        """execute from bb until `stop` or return; -> [(cond, state)]"""
        cond = 1
        while True:
            if bb == stop: return [(cond, st)]
            self.steps += 1
            if self.steps > self.max_steps: raise Limit('step limit')
            blk = fr.body['blocks'][bb]; fr.bb = bb
            loc = blk.get('l', '')
            for s in blk['s']:
                k = s[0]
                if k == '=':
                    v = self.rvalue(st, fr, s[2], loc)
                    if not s[1][1]: st.mem[(fr.id, s[1][0])] = v
                    else: self.store(st, self.place(st, fr, s[1]), v)
                elif k == 'setd':
                    r = self.place(st, fr, s[1]); v = self.load(st, r)
                    self.store(st, r, Agg(v.f if isinstance(v, Agg) else [], s[2]))
                elif k == 'cno':
                    # copy_nonoverlapping(src, dst, n)
                    self.copy_items(st, *[self.operand(st, fr, o) for o in s[1:4]])
                elif k == 'assume': pass
                else: raise Unsupported('statement ' + k)
            t = blk['t']; k = t[0]
            if k == 'goto': bb = t[1]; continue
            if k == 'return':
                return [(cond, st)]
            if k == 'call':
                outs = self.do_call(st, fr, t, loc)
                if t[4] is None or t[4] < 0: return []
                if len(outs) == 1:
                    c, st, r = outs[0]
                    cond = mul(cond, c) if not (iscon(c) and c == 1) else cond
                    if not t[3][1]: st.mem[(fr.id, t[3][0])] = r
                    else: self.store(st, self.place(st, fr, t[3]), r)
                    bb = t[4]; continue
                if not outs: return []
                res = []
                for c, s, r in outs:
                    self.store(s, self.place(s, fr, t[3]), r)
                    for c2, s2 in self.run(s, fr, t[4], stop):
                        res.append((mul(mul(cond, c), c2), s2))
                return res
            if k == 'assert':
                c = self.operand(st, fr, t[1]); exp = int(t[2])
                if not iscon(c):
                    d = self.decide(st, c)
                    if d is None:
                        if c.__class__ is not EnumV and prove(('range', c.p, exp, exp), st.facts, 4): d = bool(exp)
                        else:
                            self.fail_assert(st, c, exp, loc, t[3])
                            s2 = self.assume(st, c, exp)
                            if s2 is None: return []
                            st = s2; bb = t[4]; continue
                    c = int(d)
                if int(c) != exp:
                    self.panic(st, loc, 'assert ' + str(t[3])); return []
                self.oblige('assert:' + str(t[3]).split('(')[0], True, loc)
                bb = t[4]; continue
            if k == 'switch':
                d = self.operand(st, fr, t[1])
                d = self.force(st, d) if not isinstance(d, (int, Sym)) else d
                if iscon(d):
                    info = self.prog.intinfo(t[4]); w = info[0] if info else 64
                    m = (1 << w) - 1
                    nxt = t[3]
                    for val, tgt in t[2]:
                        if (int(val) & m) == (int(d) & m): nxt = tgt; break
                    bb = nxt; continue
                # symbolic
                w = (self.prog.intinfo(t[4]) or (64, False))
                arms = []
                rest = 1
                for val, tgt in t[2]:
                    v = int(val)
                    if w[1] and v >= 1 << (w[0] - 1): v -= 1 << w[0]
                    c = eq0(sub(d, v))
                    arms.append((c, tgt)); rest = sub(rest, c)
                if isinstance(rest, Sym) and rest.__class__ is not EnumV: rest = mk(rest.p, 0, 1)
                arms.append((rest, t[3]))
                j = self.prog.ipdom(fr.idx, bb)
                if j is None: j = -1
                live = []
                for c, tgt in arms:
                    if iscon(c) and c == 0: continue
                    if fr.body['blocks'][tgt]['t'][0] == 'unreachable' and not fr.body['blocks'][tgt]['s']:
                        continue
                    dd = self.decide(st, c)
                    if dd is False: continue
                    if dd is True: live = [(1, tgt)]; break
                    live.append((c, tgt))
                if len(live) == 1: bb = live[0][1]; continue
                res = []
                for c, tgt in live:
                    s2 = self.assume(st.fork(), c, 1)
                    if s2 is None: continue
                    for c2, s3 in self.run(s2, fr, tgt, j if j != -1 else stop if False else -1):
                        res.append((mul(c, c2), s3, None))
                if not res: return []
                if len(res) > 1:
                    for i in self.prog.dead_at(fr.idx, j):
                        for _, s3, _ in res: s3.mem.pop((fr.id, i), None)
                    res = self.merge_outcomes(st, res)
                if len(res) == 1:
                    c, st, _ = res[0]
                    if j == -1: return [(mul(cond, c), st)]
                    if not (iscon(c) and c == 1): cond = mul(cond, c)
                    bb = j; continue
                out = []
                for c, s, _ in res:
                    if j == -1: out.append((mul(cond, c), s))
                    else:
                        for c2, s2 in self.run(s, fr, j, stop): out.append((mul(mul(cond, c), c2), s2))
                return out
            if k == 'unreachable':
                if not infeasible(st.facts): self.oblige('unreachable', False, loc)
                return []
            if k == 'drop': bb = t[2]; continue
            if k in ('resume', 'abort'): return []
            raise Unsupported('terminator ' + k)

    def fail_assert(self, st, c, exp, loc, msg):
        if self.panics_ok:
            s2 = self.assume(st.fork(), c, 1 - exp)
            if s2 is not None: self.panic_paths.append((s2.facts, loc, str(msg)))
            return
        if c.__class__ is not EnumV:
            import smt
            if smt.prove(('range', c.p, exp, exp), st.facts, 15000):
                self.oblige('assert:' + str(msg).split('(')[0], True, loc); return
        self.oblige('assert:' + str(msg).split('(')[0], False, loc, f'cannot show {c!r:.200} == {exp}')

    def do_call(self, st, fr, t, loc):
        callee = t[1]
        args = [self.operand(st, fr, a) for a in t[2]]
        if callee is None: raise Unsupported('unresolved call ' + str(t[5]))
        if isinstance(callee, dict):
            f = self.operand(st, fr, callee['op'])
            if isinstance(f, Fn): callee = f.i
            else: raise Unsupported('indirect call')
        return self.call_inst(st, callee, args, loc)

    def call_closure(self, st, cl_ty, clo, args):
        """call a closure/fn value by type; clo is the value (or ref to it)"""
        T = self.prog.tys[cl_ty]
        if T['k'] == 'ref':
            return self.call_closure(st, T['e'], self.load(st, clo), args)
        if T['k'] == 'fndef': return self.call_inst(st, T['i'], args)
        if T['k'] == 'closure':
            # FnMut instance takes &mut self
            idx = next(i for i in (T['call'][1], T['call'][2], T['call'][0]) if i is not None and i >= 0)
            cell = self.new_cell(st, clo, 'clo')
            return self.call_inst(st, idx, [Ref(cell), Agg(args)])
        raise Unsupported('closure call of ' + T['s'])

def leaves(ex, st, v):
    """enumerate the leaves of an Ite tree: [(state with path facts, value)]"""
    if not isinstance(v, Ite): return [(st, v)]
    out = []
    for val, w in ((1, v.a), (0, v.b)):
        s2 = ex.assume(st.fork(), v.c, val)
        if s2 is not None: out += leaves(ex, s2, w)
    return out
