"""Loading of the MIR dump produced by /verif/driver from the current source of /repo."""
import json

class Unsupported(Exception): pass

class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.tys = d['tys']; self.insts = d['insts']
        self.roots = {}
        for n, i in d['roots']: self.roots.setdefault(n, i)
        self._pd = {}; self._live = {}
        for i, f in enumerate(self.insts):
            f['idx'] = i
    def ty(self, t): return self.tys[t]
    def intinfo(self, t):
        """(width, signed) of an integer-like type or None"""
        T = self.tys[t]; k = T['k']
        if k == 'uint': return T['w'], False
        if k == 'int': return T['w'], True
        if k == 'bool': return 1, False
        if k == 'char': return 32, False
        return None
    def adt_name(self, t):
        T = self.tys[t]
        return T['n'] if T['k'] == 'adt' else None
    def find(self, pred):
        return [f for f in self.insts if pred(f)]
    def root(self, name):
        for n, i in self.roots.items():
            if n == name: return i
        return None
    # ---- post-dominators
    def succs(self, body, b):
        t = body['blocks'][b]['t']; k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [x[1] for x in t[2]] + [t[3]]
        if k in ('return', 'unreachable', 'resume', 'abort'): return []
        if k == 'drop': return [t[2]]
        if k == 'call': return [t[4]] if t[4] is not None and t[4] >= 0 else []
        if k == 'assert': return [t[4]]
        return []
    def ipdom(self, inst, b):
        pd = self._pd.get(inst)
        if pd is None:
            pd = self._pd[inst] = self._compute_pd(self.insts[inst]['body'])
        return pd.get(b)
    def dead_at(self, inst, b):
        """locals whose value at the entry of block b (-1: after return) is never read again"""
        c = self._live.get(inst)
        if c is None: c = self._live[inst] = self._compute_dead(self.insts[inst]['body'])
        return c[b]
    def _compute_dead(self, body):
        n = len(body['blocks']); nl = len(body['locals'])
        def uses(x, out):
            if isinstance(x, list):
                if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list):
                    out.add(x[0]); ints(x[1], out)
                else:
                    for y in x: uses(y, out)
            elif isinstance(x, dict):
                for y in x.values(): uses(y, out)
        def ints(x, out):
            if isinstance(x, list):
                for y in x: ints(y, out)
            elif isinstance(x, int): out.add(x)
        pinned = {0}
        gen, kill = [], []
        for blk in body['blocks']:
            g, k = set(), set()
            for s in blk['s'] + [blk['t']]:
                u = set(); d = None
                if s[0] == '=':
                    uses(s[2], u)
                    if s[1][1]: uses([s[1]], u)
                    else: d = s[1][0]
                    if s[2][0] in ('ref', 'addrof') and not (s[2][1][1] and s[2][1][1][0] in ('*', ['*'], 'deref', ['deref'])): pinned.add(s[2][1][0])
                elif s[0] == 'call':
                    uses(s[1], u); uses(s[2], u)
                    if s[3] and s[3][1]: uses([s[3]], u)
                    elif s[3]: d = s[3][0]
                else: uses(s[1:], u)
                g |= u - k
                if d is not None: k.add(d)
            gen.append(g); kill.append(k)
        live = [set() for _ in range(n)]
        succ = [self.succs(body, b) for b in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set()
                for s in succ[b]: o |= live[s]
                new = gen[b] | (o - kill[b])
                if new != live[b]: live[b] = new; ch = True
        # locals that may hold (something built from) a reference to a borrowed local
        flows = []
        for blk in body['blocks']:
            for s in blk['s'] + [blk['t']]:
                if s[0] not in ('=', 'call', 'cno', 'setd'): continue
                u = set(); uses(s[1:], u)
                if s[0] == '=':
                    w = set(); uses(s[2], w)
                    flows.append((w, {s[1][0]}))
                elif s[0] == 'call':
                    w = set(); uses(s[2], w); uses(s[1], w)
                    flows.append((w, w | ({s[3][0]} if s[3] else set())))
                else: flows.append((u, u))
        hold = {}
        for l in pinned - {0}:
            h = {l}; ch = True
            while ch:
                ch = False
                for w, d in flows:
                    if w & h and not d <= h: h |= d; ch = True
            hold[l] = h
        r = {}
        for b in range(n):
            r[b] = frozenset(i for i in range(nl) if i != 0 and i not in live[b] and (i not in pinned or 0 not in hold[i] and not hold[i] & live[b]))
        r[-1] = frozenset(range(1, nl))
        return r
    def _compute_pd(self, body):
        """immediate post-dominators ignoring diverging blocks; -1 is the virtual exit"""
        n = len(body['blocks'])
        succ = {b: self.succs(body, b) for b in range(n)}
        for b in range(n):
            if body['blocks'][b]['t'][0] == 'return': succ[b] = [-1]
        # blocks that can reach the exit
        pred = {}
        for b, ss in succ.items():
            for s in ss: pred.setdefault(s, []).append(b)
        live = {-1}; work = [-1]
        while work:
            x = work.pop()
            for y in pred.get(x, []):
                if y not in live: live.add(y); work.append(y)
        pdom = {b: set(live) for b in live}; pdom[-1] = {-1}
        ch = True
        order = sorted(live, reverse=True)
        while ch:
            ch = False
            for b in order:
                if b == -1: continue
                ss = [s for s in succ[b] if s in live]
                new = set.intersection(*[pdom[s] for s in ss]) | {b} if ss else {b}
                if new != pdom[b]: pdom[b] = new; ch = True
        ip = {}
        for b in live:
            if b == -1: continue
            c = pdom[b] - {b}
            # the immediate one: post-dominated by no other candidate... i.e. it has the largest pdom set
            ip[b] = max(c, key=lambda x: len(pdom[x])) if c else None
        return ip
