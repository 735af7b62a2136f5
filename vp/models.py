"""Native models of functions of core/alloc (trusted: listed in the evidence)."""
import re
from exec import *
from mir import Unsupported

def one(st, v): return [(1, st, v)]
def some(v): return Agg([v], 1)
NONE = Agg([], 0)
_tab = {}
def norm(n):
    """names without lifetimes"""
    n = re.sub(r"&'\w+ ", '&', n)
    n = re.sub(r"'\w+, ", '', n)
    return re.sub(r"<'\w+>", '', n)
def model(*names):
    def d(f):
        for n in names: _tab[norm(n)] = f
        return f
    return d

_cache = {}
def lookup(inst):
    i = inst['idx']
    if inst['crate'] in ('ed448_goldilocks', 'vharness'): return None
    td = inst['tdef']
    r = inst.get('_model', 0)
    if r == 0: r = inst['_model'] = _tab.get(norm(td))
    if r: return r
    if td.endswith('precondition_check'): return lambda ex, st, inst, a: one(st, Agg([]))
    if inst['kind'] == 'intrinsic':
        return _tab.get('intr:' + (inst.get('intr') or ''))
    return None

# ---- slices and iterators
def ITER(*ms):
    """names of methods of the slice iterators"""
    out = []
    for m in ms:
        tr = 'DoubleEndedIterator' if m in ('next_back', 'nth_back', 'rfold', 'advance_back_by', 'rfind', 'try_rfold') else 'ExactSizeIterator' if m in ('len', 'is_empty') else 'Iterator'
        for l in ("'a", "'_"): out += [f"<Iter<{l}, T> as {tr}>::{m}", f"<IterMut<{l}, T> as {tr}>::{m}"]
    return out
def VITER(*ms):
    out = []
    for m in ms:
        tr = 'DoubleEndedIterator' if m in ('next_back', 'nth_back', 'rfold', 'advance_back_by') else 'ExactSizeIterator' if m in ('len', 'is_empty') else 'Iterator'
        out += [f"<IntoIter<T, N> as {tr}>::{m}", f"<IntoIter<T, A> as {tr}>::{m}"]
    return out

def unwrap_ptr(v):
    while isinstance(v, Agg) and v.f: v = v.f[0]
    return v
def as_iter(ex, st, v):
    """slice or by-value iterator of known extent"""
    v = ex.force(st, v)
    if isinstance(v, (IterV, ValIter)): return v
    if isinstance(v, Agg) and len(v.f) >= 2:        # Iter { ptr, end_or_len, .. }
        p, e = unwrap_ptr(v.f[0]), unwrap_ptr(v.f[1])
        if isinstance(p, Ref) and isinstance(e, Ref) and p.start is None and e.start is None and p.cell == e.cell and p.path and e.path and p.path[:-1] == e.path[:-1] and iscon(p.path[-1]) and iscon(e.path[-1]):
            return IterV(Ref(p.cell, p.path[:-1]), p.path[-1], e.path[-1])
    raise Unsupported('iterator shape')
def item(it, k):
    return it.vals[k] if isinstance(it, ValIter) else Ref(it.ref.cell, it.ref.path + (k,))
def sub_iter(it, i, j): return ValIter(it.vals, i, j) if isinstance(it, ValIter) else IterV(it.ref, i, j)

class Callee:
    """a closure or function argument of a library function"""
    def __init__(self, ex, st, inst, arg, val):
        self.ex, self.F = ex, inst['body']['locals'][arg]
        T = ex.prog.tys[self.F]
        self.T = T; self.val = val
        self.cell = ex.new_cell(st, val, 'clo') if T['k'] == 'closure' else None
    def __call__(self, st, args):
        if self.cell is not None:
            idx = next(x for x in (self.T['call'][1], self.T['call'][2], self.T['call'][0]) if x is not None and x >= 0)
            return self.ex.call_inst(st, idx, [Ref(self.cell), Agg(args)])
        if self.T['k'] == 'fnptr' and isinstance(self.val, Fn): return self.ex.call_inst(st, self.val.i, list(args))
        return self.ex.call_closure(st, self.F, self.val, list(args))

@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut')
def _iter(ex, st, inst, a):
    r = ex.force(st, a[0]); n = ex.length(st, r); s = r.start or 0
    return one(st, IterV(Ref(r.cell, r.path), s, s + n))

@model(*ITER('next'), *VITER('next'))
def _next(ex, st, inst, a):
    it = as_iter(ex, st, ex.load(st, a[0]))
    if it.i >= it.j: return one(st, NONE)
    ex.store(st, a[0], sub_iter(it, it.i + 1, it.j))
    return one(st, some(item(it, it.i)))

@model(*ITER('next_back'), *VITER('next_back'))
def _next_back(ex, st, inst, a):
    it = as_iter(ex, st, ex.load(st, a[0]))
    if it.i >= it.j: return one(st, NONE)
    ex.store(st, a[0], sub_iter(it, it.i, it.j - 1))
    return one(st, some(item(it, it.j - 1)))

def _k(x):
    if not iscon(x): raise Unsupported('symbolic iterator distance')
    return x
@model(*ITER('nth'), *VITER('nth'))
def _nth(ex, st, inst, a):
    it = as_iter(ex, st, ex.load(st, a[0])); k = it.i + _k(a[1])
    if k >= it.j: ex.store(st, a[0], sub_iter(it, it.j, it.j)); return one(st, NONE)
    ex.store(st, a[0], sub_iter(it, k + 1, it.j))
    return one(st, some(item(it, k)))
@model(*ITER('nth_back'), *VITER('nth_back'))
def _nth_back(ex, st, inst, a):
    it = as_iter(ex, st, ex.load(st, a[0])); k = it.j - 1 - _k(a[1])
    if k < it.i: ex.store(st, a[0], sub_iter(it, it.i, it.i)); return one(st, NONE)
    ex.store(st, a[0], sub_iter(it, it.i, k))
    return one(st, some(item(it, k)))
def _adv(ex, st, inst, a, back):
    it = as_iter(ex, st, ex.load(st, a[0])); k = min(_k(a[1]), it.j - it.i); rest = a[1] - k
    ex.store(st, a[0], sub_iter(it, it.i, it.j - k) if back else sub_iter(it, it.i + k, it.j))
    return one(st, Agg([Agg([rest])], 1) if rest else Agg([Agg([])], 0))
@model(*ITER('advance_by'), *VITER('advance_by'))
def _advance(ex, st, inst, a): return _adv(ex, st, inst, a, False)
@model(*ITER('advance_back_by'), *VITER('advance_back_by'))
def _advance_back(ex, st, inst, a): return _adv(ex, st, inst, a, True)
@model(*ITER('count'), *VITER('count'))
def _count(ex, st, inst, a):
    it = as_iter(ex, st, a[0]); return one(st, it.j - it.i)
@model(*ITER('last'), *VITER('last'))
def _ilast(ex, st, inst, a):
    it = as_iter(ex, st, a[0]); return one(st, some(item(it, it.j - 1)) if it.i < it.j else NONE)
@model("Iter::<'a, T>::as_slice", "IterMut::<'a, T>::as_slice", "Iter::<'_, T>::as_slice")
def _as_slice(ex, st, inst, a):
    it = as_iter(ex, st, ex.load(st, a[0])); return one(st, Ref(it.ref.cell, it.ref.path, it.i, it.j - it.i))
@model("IterMut::<'a, T>::into_slice")
def _into_slice(ex, st, inst, a):
    it = as_iter(ex, st, a[0]); return one(st, Ref(it.ref.cell, it.ref.path, it.i, it.j - it.i))
@model("<Iter<'_, T> as Clone>::clone")
def _iclone(ex, st, inst, a): return one(st, as_iter(ex, st, ex.load(st, a[0])))
@model("<IntoIter<T, N> as Clone>::clone", "<IntoIter<T, A> as Clone>::clone")
def _viclone(ex, st, inst, a): return one(st, as_iter(ex, st, ex.load(st, a[0])))

@model(*ITER('size_hint'), *VITER('size_hint'))
def _size_hint(ex, st, inst, a):
    it = as_iter(ex, st, ex.load(st, a[0])); n = it.j - it.i
    return one(st, Agg([n, some(n)]))

@model("TrustedRandomAccessNoCoerce::size", *ITER('len'), *VITER('len'))
def _size(ex, st, inst, a):
    it = ex.load(st, a[0])
    if not isinstance(it, (IterV, ValIter)):
        if not inst['tdef'].startswith('<'): return NotImplemented
        it = as_iter(ex, st, it)
    return one(st, it.j - it.i)
@model(*ITER('is_empty'), *VITER('is_empty'))
def _iempty(ex, st, inst, a):
    it = as_iter(ex, st, ex.load(st, a[0])); return one(st, int(it.i >= it.j))

@model(*ITER('__iterator_get_unchecked'), *VITER('__iterator_get_unchecked'))
def _getun(ex, st, inst, a):
    it = as_iter(ex, st, ex.load(st, a[0]))
    if isinstance(it, ValIter): return one(st, it.vals[it.i + _k(a[1])])
    return one(st, Ref(it.ref.cell, it.ref.path + (add(it.i, a[1]),)))

def _foldg(ex, st, inst, a, rev, acc, clo, unit=False):
    it = as_iter(ex, st, a[0])
    f = Callee(ex, st, inst, 2 if unit else 3, clo)
    outs = [(1, st, acc)]
    rng = range(it.i, it.j)
    for i in (reversed(rng) if rev else rng):
        new = []
        for c, s, ac in outs:
            r = f(s, [item(it, i)] if unit else [ac, item(it, i)])
            new += [(mul(c, c2), s2, r2) for c2, s2, r2 in r]
        outs = ex.merge_outcomes(st, new)
        if not outs: return []
    return outs
@model(*ITER('fold'), *VITER('fold'))
def _fold(ex, st, inst, a): return _foldg(ex, st, inst, a, False, a[1], a[2])
@model(*ITER('rfold'), *VITER('rfold'))
def _rfold(ex, st, inst, a): return _foldg(ex, st, inst, a, True, a[1], a[2])
@model(*ITER('for_each'))
def _for_each(ex, st, inst, a): return [(c, s, Agg([])) for c, s, _ in _foldg(ex, st, inst, a, False, Agg([]), a[1], True)]

def _search(ex, st, inst, a, stop_on, hit, miss, by_ref_item=False, rev=False):
    """visit the items until the predicate returns stop_on; hit(it, i) and miss give the result"""
    it = as_iter(ex, st, ex.load(st, a[0]))
    f = Callee(ex, st, inst, 2, a[1])
    live = [(1, st)]; res = []
    rng = list(range(it.i, it.j))
    if rev: rng.reverse()
    for i in rng:
        new = []
        for c, s in live:
            x = item(it, i)
            if by_ref_item: x = Ref(ex.new_cell(s, x, 'it'))
            for c2, s2, r in f(s, [x]):
                cc = mul(c, c2)
                d = ex.decide(s2, r)
                if d is not None:
                    if d == bool(stop_on): res.append((cc, s2, i))
                    else: new.append((cc, s2))
                    continue
                for val in (1, 0):
                    s3 = ex.assume(s2.fork(), r, val)
                    if s3 is None: continue
                    c3 = mul(cc, r if val else sub(1, r))
                    if val == int(stop_on): res.append((c3, s3, i))
                    else: new.append((c3, s3))
        live = new
        if not live: break
    outs = []
    for c, s, i in res:
        ex.store(s, a[0], sub_iter(it, it.i, i) if rev else sub_iter(it, i + 1, it.j)); outs.append((c, s, hit(it, i)))
    for c, s in live:
        ex.store(s, a[0], sub_iter(it, it.j, it.j)); outs.append((c, s, miss))
    return ex.merge_outcomes(st, outs)
def _pure_preds(ex, st, inst, a):
    """0/1 values of the predicate on every item when it neither forks nor writes; else None"""
    it = as_iter(ex, st, ex.load(st, a[0]))
    s0 = st.fork(); f = Callee(ex, s0, inst, 2, a[1]); keys = set(s0.mem); n0 = len(ex.obls)
    out = []; mem0 = dict(s0.mem)
    for i in range(it.i, it.j):
        r = f(s0, [item(it, i)])
        if len(r) != 1 or not (iscon(r[0][0]) and r[0][0] == 1) or not isinstance(r[0][2], (int, Sym)) or r[0][2].__class__ is EnumV: del ex.obls[n0:]; return None, None
        s0 = r[0][1]
        if any(s0.mem.get(k) is not mem0[k] for k in keys): del ex.obls[n0:]; return None, None
        out.append(r[0][2])
    st.facts = s0.facts
    return it, out
@model(*ITER('all'), *ITER('any'))
def _allany(ex, st, inst, a):
    al = inst['tdef'].endswith('all')
    it, ps = _pure_preds(ex, st, inst, a)
    if ps is None: return _all(ex, st, inst, a) if al else _any(ex, st, inst, a)
    t = 0
    for c in ps: t = add(t, sub(1, c) if al else c)
    r = eq0(t) if al else sub(1, eq0(t))
    # how far the iterator has advanced is not tracked: a later use finds no iterator shape
    ex.store(st, a[0], Agg([]))
    return one(st, r)
def _all(ex, st, inst, a): return _search(ex, st, inst, a, 0, lambda it, i: 0, 1)
def _any(ex, st, inst, a): return _search(ex, st, inst, a, 1, lambda it, i: 1, 0)
@model(*ITER('position'))
def _position(ex, st, inst, a): return _search(ex, st, inst, a, 1, lambda it, i: some(i - it.i), NONE)
@model(*ITER('find'))
def _find(ex, st, inst, a): return _search(ex, st, inst, a, 1, lambda it, i: some(item(it, i)), NONE, True)
@model(*ITER('rfind'))
def _rfind(ex, st, inst, a): return _search(ex, st, inst, a, 1, lambda it, i: some(item(it, i)), NONE, True, True)

@model('from_fn')
def _from_fn(ex, st, inst, a):
    if not inst['name'].startswith(('std::array::from_fn', 'core::array::from_fn')): return NotImplemented
    T = ex.prog.tys[inst['body']['locals'][0]]
    n = T['n']
    F = inst['body']['locals'][1]
    items = []
    TF = ex.prog.tys[F]
    cell = ex.new_cell(st, a[0], 'clo')
    for i in range(n):
        if TF['k'] == 'closure':
            idx = next(x for x in (TF['call'][1], TF['call'][2], TF['call'][0]) if x is not None and x >= 0)
            outs = ex.call_inst(st, idx, [Ref(cell), Agg([i])])
        else: outs = ex.call_closure(st, F, a[0], [i])
        if not outs: return []
        if len(outs) != 1: raise Unsupported('forking closure in from_fn')
        _, st, v = outs[0]
        items.append(v)
    return one(st, Agg(items))

@model('core::slice::<impl [T]>::copy_from_slice', 'copy_from_slice_impl', 'core::slice::<impl [T]>::clone_from_slice')
def _cfs(ex, st, inst, a):
    d, s = a[0], a[1]
    n, m = ex.length(st, d), ex.length(st, s)
    if n != m: ex.panic(st, '', 'copy_from_slice length mismatch'); return []
    src = ex.load(st, Ref(s.cell, s.path))
    so, do = s.start or 0, d.start or 0
    dv = ex.load(st, Ref(d.cell, d.path))
    if not isinstance(dv, Agg) or not isinstance(src, Agg): raise Unsupported('copy_from_slice')
    f = list(dv.f)
    for i in range(n): f[do + i] = src.f[so + i]
    ex.store(st, Ref(d.cell, d.path), Agg(f, dv.v))
    return one(st, Agg([]))

def slice_items(ex, st, r):
    v = ex.load(st, Ref(r.cell, r.path))
    items = v.f if isinstance(v, Agg) else v.items
    if r.start is None: return items
    return items[r.start:r.start + r.n]

@model('core::slice::<impl [T]>::split_last')
def _split_last(ex, st, inst, a):
    r = a[0]; n = ex.length(st, r); s = r.start or 0
    if n == 0: return one(st, NONE)
    return one(st, some(Agg([Ref(r.cell, r.path + (s + n - 1,)), Ref(r.cell, r.path, s, n - 1)])))
@model('core::slice::<impl [T]>::split_first')
def _split_first(ex, st, inst, a):
    r = a[0]; n = ex.length(st, r); s = r.start or 0
    if n == 0: return one(st, NONE)
    return one(st, some(Agg([Ref(r.cell, r.path + (s,)), Ref(r.cell, r.path, s + 1, n - 1)])))
@model('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def _split_at(ex, st, inst, a):
    r = a[0]; n = ex.length(st, r); s = r.start or 0; k = a[1]
    if k > n: ex.panic(st, '', 'split_at'); return []
    return one(st, Agg([Ref(r.cell, r.path, s, k), Ref(r.cell, r.path, s + k, n - k)]))
@model('core::slice::<impl [T]>::last_mut', 'core::slice::<impl [T]>::last')
def _last(ex, st, inst, a):
    r = a[0]; n = ex.length(st, r); s = r.start or 0
    return one(st, some(Ref(r.cell, r.path + (s + n - 1,))) if n else NONE)
@model('core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::first')
def _first(ex, st, inst, a):
    r = a[0]; n = ex.length(st, r); s = r.start or 0
    return one(st, some(Ref(r.cell, r.path + (s,))) if n else NONE)
@model('core::slice::<impl [T]>::len')
def _len(ex, st, inst, a): return one(st, ex.length(st, a[0]))

def _range_of(ex, st, v, n, kind):
    if kind == 'Range': return v.f[0], v.f[1]
    if kind == 'RangeFrom': return v.f[0], n
    if kind == 'RangeTo': return 0, v.f[0]
    if kind == 'RangeFull': return 0, n
    if kind == 'RangeInclusive': return v.f[0], v.f[1] + 1
    if kind == 'RangeToInclusive': return 0, v.f[0] + 1
    raise Unsupported('range')

@model('core::slice::index::<impl Index<I> for [T]>::index', 'core::slice::index::<impl IndexMut<I> for [T]>::index_mut',
       'std::array::<impl Index<I> for [T; N]>::index', 'std::array::<impl IndexMut<I> for [T; N]>::index_mut')
def _slice_index(ex, st, inst, a):
    r = a[0]
    n = ex.length(st, r); s = r.start or 0
    T = ex.prog.tys[inst['body']['locals'][2]]
    if T['k'] == 'uint':
        i = a[1]
        if iscon(i):
            if i >= n: ex.panic(st, '', 'index out of bounds'); return []
            return one(st, Ref(r.cell, r.path + (s + i,)))
        i2 = ex.refine(st, i, 0, n - 1)
        if HI(i2) >= n: ex.fail_assert(st, lt0(sub(i, n)), 1, '', 'bounds')
        return one(st, Ref(r.cell, r.path + (add(i2, s),)))
    if T['k'] != 'adt': return NotImplemented
    kind = T['n'].split('::')[-1].split('<')[0]
    lo, hi = _range_of(ex, st, a[1], n, kind)
    if not (iscon(lo) and iscon(hi)): raise Unsupported('symbolic slice range')
    if lo > hi or hi > n: ex.panic(st, '', 'slice range out of bounds'); return []
    return one(st, Ref(r.cell, r.path, s + lo, hi - lo))

@model("<[T; N] as IntoIterator>::into_iter", "std::array::iter::<impl IntoIterator for [T; N]>::into_iter", "core::array::iter::<impl IntoIterator for [T; N]>::into_iter")
def _arr_into(ex, st, inst, a):
    return one(st, ValIter(a[0].f, 0, len(a[0].f)))
# ---- Vec
@model('Vec::<T>::with_capacity', 'Vec::<T>::new')
def _vec(ex, st, inst, a): return one(st, VecV())
@model('Vec::<T, A>::push', 'Vec::<T, A>::push_mut')
def _push(ex, st, inst, a):
    v = ex.load(st, a[0])
    ex.store(st, a[0], VecV(v.items + (a[1],)))
    if inst['tdef'].endswith('push_mut'): return one(st, Ref(a[0].cell, a[0].path + (len(v.items),)))
    return one(st, Agg([]))
@model('Vec::<T, A>::len')
def _vlen(ex, st, inst, a): return one(st, len(ex.load(st, a[0]).items))
@model('<Vec<T, A> as IntoIterator>::into_iter')
def _vecinto(ex, st, inst, a): return one(st, ValIter(a[0].items, 0, len(a[0].items)))
@model("<&'a Vec<T, A> as IntoIterator>::into_iter", "<&'a mut Vec<T, A> as IntoIterator>::into_iter")
def _vecrefinto(ex, st, inst, a):
    v = ex.load(st, a[0]); return one(st, IterV(a[0], 0, len(v.items)))
@model('<Vec<T, A> as Deref>::deref', '<Vec<T, A> as DerefMut>::deref_mut', 'Vec::<T, A>::as_slice', 'Vec::<T, A>::as_mut_slice')
def _vderef(ex, st, inst, a):
    v = ex.load(st, a[0]); return one(st, Ref(a[0].cell, a[0].path, 0, len(v.items)))
@model('<Vec<T, A> as Index<I>>::index', '<Vec<T, A> as IndexMut<I>>::index_mut')
def _vindex(ex, st, inst, a):
    v = ex.load(st, a[0])
    return _slice_index(ex, st, inst, [Ref(a[0].cell, a[0].path, 0, len(v.items)), a[1]])

@model('from_elem')
def _from_elem(ex, st, inst, a):
    if 'vec::from_elem' not in inst['name']: return NotImplemented
    if not iscon(a[1]): raise Unsupported('vector of symbolic length')
    return one(st, VecV([a[0]] * a[1]))
@model('alloc::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::to_vec', 'slice::<impl [T]>::to_vec', '<[T] as ToOwned>::to_owned', 'alloc::slice::<impl [T]>::to_vec_in', 'slice::<impl [T]>::to_vec_in', 'alloc::slice::<impl ToOwned for [T]>::to_owned')
def _to_vec(ex, st, inst, a): return one(st, VecV(slice_items(ex, st, a[0])))
@model('<Vec<T, A> as Clone>::clone')
def _vclone(ex, st, inst, a): return one(st, ex.load(st, a[0]))
@model('Vec::<T, A>::extend_from_slice')
def _efs(ex, st, inst, a):
    v = ex.load(st, a[0]); ex.store(st, a[0], VecV(v.items + tuple(slice_items(ex, st, a[1])))); return one(st, Agg([]))
@model('Vec::<T, A>::pop')
def _pop(ex, st, inst, a):
    v = ex.load(st, a[0])
    if not v.items: return one(st, NONE)
    ex.store(st, a[0], VecV(v.items[:-1])); return one(st, some(v.items[-1]))
@model('Vec::<T, A>::truncate')
def _trunc(ex, st, inst, a):
    v = ex.load(st, a[0]); ex.store(st, a[0], VecV(v.items[:_k(a[1])])); return one(st, Agg([]))
@model('Vec::<T, A>::clear')
def _clear(ex, st, inst, a): ex.store(st, a[0], VecV()); return one(st, Agg([]))
@model('Vec::<T, A>::resize')
def _resize(ex, st, inst, a):
    v = ex.load(st, a[0]); n = _k(a[1]); k = len(v.items)
    ex.store(st, a[0], VecV(v.items[:n] + (a[2],) * max(0, n - k))); return one(st, Agg([]))
@model('Vec::<T, A>::insert')
def _insert(ex, st, inst, a):
    v = ex.load(st, a[0]); k = _k(a[1])
    if k > len(v.items): ex.panic(st, '', 'insertion index'); return []
    ex.store(st, a[0], VecV(v.items[:k] + (a[2],) + v.items[k:])); return one(st, Agg([]))
@model('Vec::<T, A>::remove')
def _remove(ex, st, inst, a):
    v = ex.load(st, a[0]); k = _k(a[1])
    if k >= len(v.items): ex.panic(st, '', 'removal index'); return []
    ex.store(st, a[0], VecV(v.items[:k] + v.items[k + 1:])); return one(st, v.items[k])
@model('Vec::<T, A>::append')
def _append(ex, st, inst, a):
    v, w = ex.load(st, a[0]), ex.load(st, a[1])
    ex.store(st, a[0], VecV(v.items + w.items)); ex.store(st, a[1], VecV()); return one(st, Agg([]))
@model('Vec::<T, A>::is_empty')
def _vempty(ex, st, inst, a): return one(st, int(not ex.load(st, a[0]).items))
@model('Vec::<T, A>::reserve', 'Vec::<T, A>::reserve_exact', 'Vec::<T, A>::shrink_to_fit')
def _reserve(ex, st, inst, a): return one(st, Agg([]))
@model('<Vec<T, A> as AsRef<[T]>>::as_ref', '<Vec<T, A> as AsMut<[T]>>::as_mut', '<Vec<T, A> as Borrow<[T]>>::borrow')
def _vasref(ex, st, inst, a): return _vderef(ex, st, inst, a)
@model("std::vec::<impl TryFrom<Vec<T, A>> for [T; N]>::try_from", "<[T; N] as TryFrom<Vec<T, A>>>::try_from", "array::<impl TryFrom<Vec<T, A>> for [T; N]>::try_from", "alloc::vec::<impl TryFrom<Vec<T, A>> for [T; N]>::try_from", "vec::<impl TryFrom<Vec<T, A>> for [T; N]>::try_from")
def _vtry(ex, st, inst, a):
    R = ex.prog.tys[inst['body']['locals'][0]]; n = ex.prog.tys[R['v'][0]['f'][0][1]]['n']
    v = a[0]
    return one(st, Agg([Agg(v.items)], 0) if len(v.items) == n else Agg([v], 1))

def _calls(inst):
    """(callee index, name) of the calls in a body, in order"""
    return [b['t'] for b in inst['body']['blocks'] if b['t'][0] == 'call' and isinstance(b['t'][1], int)]
class CollectV(Opq):
    """the closure that appends to the vector at ref"""
    def __init__(self, ref): self.ref = ref
@model('Vec::<T, A>::extend_trusted')
def _extend_trusted(ex, st, inst, a):
    for t in _calls(inst):
        n = ex.prog.insts[t[1]]
        if n['tdef'].split('::')[-1] == 'for_each':
            return [(c, s, Agg([])) for c, s, _ in ex.call_inst(st, t[1], [a[1], CollectV(a[0])])]
    raise Unsupported('collect into Vec')
@model('Vec::<T, A>::extend_trusted::{closure#0}')
def _collect_one(ex, st, inst, a):
    k = a[0]
    while isinstance(k, Ref): k = ex.load(st, k)
    if not isinstance(k, CollectV): raise Unsupported('collect')
    x = a[1].f[0] if isinstance(a[1], Agg) and len(a) == 2 and a[1].v is None and len(a[1].f) == 1 and inst['body']['argc'] == 2 and not _is_single(ex, inst) else a[1]
    v = ex.load(st, k.ref); ex.store(st, k.ref, VecV(v.items + (x,)))
    return one(st, Agg([]))
def _is_single(ex, inst): return False
def _pull(ex, st, inst, itref, vref):
    """append every item the iterator at itref yields to the vector at vref"""
    nx = [t[1] for t in _calls(inst) if ex.prog.insts[t[1]]['tdef'].split('::')[-1] == 'next']
    if not nx: raise Unsupported('collect into Vec')
    live = [st]; done = []
    while live:
        new = []
        for s in live:
            for c, s2, r in ex.call_inst(s, nx[0], [itref]):
                if not (iscon(c) and c == 1): raise Unsupported('collect of a forking iterator')
                r = ex.force(s2, r)
                if isinstance(r, Ite): raise Unsupported('collect of a symbolic number of items')
                if r.v == 0: done.append(s2)
                else:
                    v = ex.load(s2, vref); ex.store(s2, vref, VecV(v.items + (r.f[0],))); new.append(s2)
        live = new
    return done
@model('Vec::<T, A>::extend_desugared')
def _extend_desugared(ex, st, inst, a):
    it = Ref(ex.new_cell(st, a[1], 'it'))
    return [(1, s, Agg([])) for s in _pull(ex, st, inst, it, a[0])]
@model('<Vec<T> as SpecFromIterNested<T, I>>::from_iter')
def _from_iter_nested(ex, st, inst, a):
    v = Ref(ex.new_cell(st, VecV(), 'vec'))
    calls = _calls(inst)
    if any(ex.prog.insts[t[1]]['tdef'].split('::')[-1] == 'next' for t in calls):
        it = Ref(ex.new_cell(st, a[0], 'it'))
        return [(1, s, ex.load(s, v)) for s in _pull(ex, st, inst, it, v)]
    for t in calls:
        n = ex.prog.insts[t[1]]
        if n['tdef'].split('::')[-1] in ('spec_extend', 'extend_trusted'):
            return [(c, s, ex.load(s, v)) for c, s, _ in ex.call_inst(st, t[1], [v, a[0]])]
    raise Unsupported('collect into Vec')
@model("<Vec<T, A> as SpecExtend<&'a T, Iter<'a, T>>>::spec_extend")
def _spec_extend_slice(ex, st, inst, a):
    it = as_iter(ex, st, a[1]); v = ex.load(st, a[0])
    ex.store(st, a[0], VecV(v.items + tuple(ex.load(st, item(it, i)) for i in range(it.i, it.j)))); return one(st, Agg([]))

# ---- boxes
@model('Box::<T>::new')
def _box_new(ex, st, inst, a): return one(st, BOX(Ref(ex.new_cell(st, a[0], 'box'))))
def BOX(r): return Agg([Agg([Agg([r]), Agg([])]), Agg([])])     # Box { Unique { NonNull { ptr } } , alloc }
@model('Box::<T>::new_uninit')
def _box_uninit(ex, st, inst, a): return one(st, BOX(Ref(ex.new_cell(st, UNINIT, 'box'))))
@model('box_assume_init_into_vec_unsafe', 'alloc::boxed::box_assume_init_into_vec_unsafe')
def _box_vec(ex, st, inst, a):
    v = ex.load(st, unwrap_ptr(a[0]))
    while isinstance(v, Agg) and len(v.f) in (1, 2) and isinstance(v.f[-1], Agg) and v.v is None and _wrapped(ex, inst, v): v = v.f[-1]
    return one(st, VecV(v.f))
def _wrapped(ex, inst, v):
    T = ex.prog.tys[inst['body']['locals'][1]]
    n = int(re.search(r'; (\d+)\]', T['s']).group(1))
    return len(v.f) != n or isinstance(v.f[0], Agg) and len(v.f[0].f) == n and n == 1 and False

# ---- slices: whole-slice operations
def _set_items(ex, st, r, items):
    base = Ref(r.cell, r.path); o = ex.load(st, base)
    f = list(o.f if isinstance(o, Agg) else o.items); s = r.start or 0
    f[s:s + len(items)] = items
    ex.store(st, base, Agg(f, o.v) if isinstance(o, Agg) else VecV(f))
    return one(st, Agg([]))
@model('core::slice::<impl [T]>::fill')
def _fill(ex, st, inst, a): return _set_items(ex, st, a[0], [a[1]] * ex.length(st, a[0]))
@model('core::slice::<impl [T]>::swap')
def _sswap(ex, st, inst, a):
    f = list(slice_items(ex, st, a[0])); i, j = _k(a[1]), _k(a[2])
    if max(i, j) >= len(f): ex.panic(st, '', 'index out of bounds'); return []
    f[i], f[j] = f[j], f[i]
    return _set_items(ex, st, a[0], f)
@model('core::slice::<impl [T]>::reverse')
def _reverse(ex, st, inst, a): return _set_items(ex, st, a[0], list(slice_items(ex, st, a[0]))[::-1])
@model('core::slice::<impl [T]>::rotate_left')
def _rotl(ex, st, inst, a):
    f = list(slice_items(ex, st, a[0])); k = _k(a[1])
    if k > len(f): ex.panic(st, '', 'rotate'); return []
    return _set_items(ex, st, a[0], f[k:] + f[:k])
@model('core::slice::<impl [T]>::rotate_right')
def _rotr(ex, st, inst, a):
    f = list(slice_items(ex, st, a[0])); k = len(f) - _k(a[1])
    if k < 0: ex.panic(st, '', 'rotate'); return []
    return _set_items(ex, st, a[0], f[k:] + f[:k])
@model('std::array::<impl [T; N]>::map', 'core::array::<impl [T; N]>::map')
def _amap(ex, st, inst, a):
    f = Callee(ex, st, inst, 2, a[1]); out = []
    for x in a[0].f:
        r = f(st, [x])
        if len(r) != 1: raise Unsupported('forking closure in map') if r else None
        if not r: return []
        _, st, v = r[0]; out.append(v)
    return one(st, Agg(out))

# ---- integer intrinsics
def _ty(ex, inst): return ex.prog.intinfo(inst['ga'][0]) if inst.get('ga') and isinstance(inst['ga'][0], int) else None
def _rng(w, sg): return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
def _width(inst):
    m = re.search(r'::<([iu])(\d+|size)>$', inst['name'])
    if not m: raise Unsupported('width of ' + inst['name'])
    return (64 if m.group(2) == 'size' else int(m.group(2))), m.group(1) == 'i'
def _sat(ex, st, inst, r):
    w, sg = _width(inst); lo, hi = _rng(w, sg)
    r = ex.refine(st, r, lo, hi)
    if HI(r) > hi: r = ite(lt0(sub(hi, r)), hi, r)
    if LO(r) < lo: r = ite(lt0(sub(r, lo)), lo, r)
    return one(st, r)
@model('intr:saturating_sub')
def _ssub(ex, st, inst, a): return _sat(ex, st, inst, sub(a[0], a[1]))
@model('intr:saturating_add')
def _sadd(ex, st, inst, a): return _sat(ex, st, inst, add(a[0], a[1]))
@model('intr:bswap')
def _bswap(ex, st, inst, a):
    w, sg = _width(inst); r = 0
    for i in range(w // 8): r = add(r, mul(mod2k(shr(a[0], 8 * i), 8), 1 << (w - 8 - 8 * i)))
    return one(st, wrap(r, w, sg))
def _rot(ex, st, inst, x, k, left):
    w, sg = _width(inst); k = _k(k) % w
    if not left: k = (w - k) % w
    x = wrap(x, w, False)
    if k == 0: return one(st, wrap(x, w, sg))
    return one(st, wrap(add(mul(mod2k(x, w - k), 1 << k), shr(x, w - k)), w, sg))
@model('intr:rotate_left')
def _rl(ex, st, inst, a): return _rot(ex, st, inst, a[0], a[1], True)
@model('intr:rotate_right')
def _rr(ex, st, inst, a): return _rot(ex, st, inst, a[0], a[1], False)
@model('intr:exact_div')
def _ediv(ex, st, inst, a):
    if iscon(a[0]) and iscon(a[1]): return one(st, a[0] // a[1])
    raise Unsupported('exact_div')
@model('intr:is_val_statically_known')
def _isk(ex, st, inst, a): return one(st, 0)
@model('intr:likely', 'intr:unlikely')
def _likely(ex, st, inst, a): return one(st, a[0])
@model('intr:ctlz', 'intr:ctlz_nonzero', 'intr:cttz', 'intr:cttz_nonzero', 'intr:ctpop')
def _bits(ex, st, inst, a):
    w, _ = _width(inst); k = inst['intr']; x = a[0]
    def f(v):
        v &= (1 << w) - 1
        return w - v.bit_length() if k.startswith('ctlz') else bin(v).count('1') if k == 'ctpop' else (v & -v).bit_length() - 1 if v else w
    if iscon(x): return one(st, f(x))
    if x.hi - x.lo > 256: 
        if k == 'ctpop':
            r = 0
            for i in range(w): r = add(r, mod2k(shr(x, i), 1))
            return one(st, r)
        raise Unsupported(k)
    r = f(x.hi)
    for v in range(x.hi - 1, x.lo - 1, -1): r = ite(eq0(sub(x, v)), f(v), r)
    return one(st, r)
@model('intr:raw_eq')
def _raw_eq(ex, st, inst, a):
    x, y = ex.load(st, a[0]), ex.load(st, a[1])
    return one(st, ints_eq(ex, st, x.f, y.f))
@model('<A as SlicePartialEq<B>>::equal_same_length')
def _eqsl(ex, st, inst, a):
    n = _k(a[2])
    x, y = ([ex.load(st, ex.ptr_offset(p if p.start is None else Ref(p.cell, p.path + (p.start,)), i)) for i in range(n)] for p in a[:2])
    if not all(isinstance(v, (int, Sym)) for v in x + y): return NotImplemented
    return one(st, ints_eq(ex, st, x, y))
@model('intr:compare_bytes')
def _cmpb(ex, st, inst, a): raise Unsupported('compare_bytes')
@model('intr:typed_swap_nonoverlapping')
def _tswap(ex, st, inst, a):
    x, y = ex.load(st, a[0]), ex.load(st, a[1]); ex.store(st, a[0], y); ex.store(st, a[1], x); return one(st, Agg([]))
@model('intr:copy', 'intr:copy_nonoverlapping')
def _icopy(ex, st, inst, a): ex.copy_items(st, a[0], a[1], a[2]); return one(st, Agg([]))
@model('intr:ptr_offset_from_unsigned', 'intr:ptr_offset_from')
def _pof(ex, st, inst, a):
    x, y = a
    if isinstance(x, Ref) and isinstance(y, Ref) and x.cell == y.cell:
        if x == y: return one(st, 0)
        if x.path[:-1] == y.path[:-1] and len(x.path) == len(y.path): return one(st, sub(x.path[-1], y.path[-1]))
    raise Unsupported('pointer difference')

# ---- volatile / hints
@model('read_volatile')
def _rv(ex, st, inst, a): return one(st, ex.load(st, a[0]))
@model('write_volatile')
def _wv(ex, st, inst, a):
    ex.store(st, a[0], a[1]); return one(st, Agg([]))
@model('intr:volatile_load')
def _ivl(ex, st, inst, a): return one(st, ex.load(st, a[0]))
@model('intr:volatile_store')
def _ivs(ex, st, inst, a): ex.store(st, a[0], a[1]); return one(st, Agg([]))
@model('intr:cold_path', 'intr:assert_inhabited', 'intr:assume')
def _nop(ex, st, inst, a): return one(st, Agg([]))
@model('intr:black_box', 'black_box')
def _bb(ex, st, inst, a): return one(st, a[0])
@model('intr:integer_max')
def _imax(ex, st, inst, a):
    if iscon(a[0]) and iscon(a[1]): return one(st, max(a))
    return one(st, ite(lt0(sub(a[0], a[1])), a[1], a[0]))
@model('intr:integer_min')
def _imin(ex, st, inst, a):
    if iscon(a[0]) and iscon(a[1]): return one(st, min(a))
    return one(st, ite(lt0(sub(a[0], a[1])), a[0], a[1]))
@model('std::mem::swap', 'swap', 'core::mem::swap')
def _swap(ex, st, inst, a):
    if 'mem::swap' not in inst['name']: return NotImplemented
    x, y = ex.load(st, a[0]), ex.load(st, a[1])
    ex.store(st, a[0], y); ex.store(st, a[1], x)
    return one(st, Agg([]))
@model('std::mem::replace', 'replace')
def _replace(ex, st, inst, a):
    if 'mem::replace' not in inst['name']: return NotImplemented
    x = ex.load(st, a[0]); ex.store(st, a[0], a[1]); return one(st, x)
@model('drop_glue')
def _dg(ex, st, inst, a): return one(st, Agg([]))
@model('compiler_fence', 'fence')
def _fence(ex, st, inst, a): return one(st, Agg([]))
@model('std::array::<impl Clone for [T; N]>::clone')
def _aclone(ex, st, inst, a): return one(st, ex.load(st, a[0]))

# ---- subtle (external dependency: contracts, bodies verified by the goal dep_subtle)
def choice(c): return Agg([c])
@model('<[T] as ConstantTimeEq>::ct_eq', '<[T; N] as ConstantTimeEq>::ct_eq')
def _slice_cteq(ex, st, inst, a):
    x, y = slice_items(ex, st, a[0]), slice_items(ex, st, a[1])
    if len(x) != len(y): return one(st, choice(0))
    if not all(isinstance(v, (int, Sym)) for v in tuple(x) + tuple(y)): return NotImplemented
    return one(st, choice(ints_eq(ex, st, x, y)))

def ints_eq(ex, st, x, y):
    """0/1 value of elementwise equality of two sequences of machine integers"""
    h = getattr(ex, 'eq_hook', None)
    if h:
        r = h(st, x, y)
        if r is not None: return r
    if all(iscon(v) for v in x) and all(iscon(v) for v in y): return int(tuple(x) == tuple(y))
    w = max(max(HI(v), 0).bit_length() for v in tuple(x) + tuple(y))
    if any(LO(v) < 0 for v in tuple(x) + tuple(y)): raise Unsupported('equality of signed sequences')
    d = 0
    for i, (u, v) in enumerate(zip(x, y)): d = add(d, mul(sub(u, v), 1 << (w * i)))
    if not iscon(d) and prove(('zero', d.p, None), st.facts): return 1
    return eq0(d)

@model('<u8 as ConstantTimeEq>::ct_eq', '<u16 as ConstantTimeEq>::ct_eq', '<u32 as ConstantTimeEq>::ct_eq', '<u64 as ConstantTimeEq>::ct_eq', '<usize as ConstantTimeEq>::ct_eq', '<i8 as ConstantTimeEq>::ct_eq', '<i32 as ConstantTimeEq>::ct_eq')
def _int_cteq(ex, st, inst, a):
    x, y = ex.load(st, a[0]), ex.load(st, a[1])
    return one(st, choice(note_eq(eq0(sub(x, y)), x, y)))
@model(*[f'<{t} as ConditionallySelectable>::conditional_select' for t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i32', 'i64', 'u128', 'Choice')])
def _int_sel(ex, st, inst, a):
    c = a[2].f[0]
    return one(st, ex.merge(c, ex.load(st, a[1]), ex.load(st, a[0])))
# core equality of byte arrays and slices
@model('core::array::equality::<impl PartialEq<[U; N]> for [T; N]>::eq', 'std::array::equality::<impl PartialEq<[U; N]> for [T; N]>::eq', '<[T] as PartialEq<[U]>>::eq', 'core::slice::cmp::<impl PartialEq<[U]> for [T]>::eq')
def _arr_eq(ex, st, inst, a):
    x, y = slice_items(ex, st, a[0]), slice_items(ex, st, a[1])
    if len(x) != len(y): return one(st, 0)
    if not all(isinstance(v, (int, Sym)) for v in tuple(x) + tuple(y)): return NotImplemented
    return one(st, ints_eq(ex, st, x, y))
