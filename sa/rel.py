"""Product of linear equations (affine.Sys) and linear inequalities (zone states), partitioned by which side the last
min()/max() took: after n = min(room, left) the two cases n = room and n = left are followed separately.  A forward
dataflow analysis; the state of a block is a set of at most a few (equations, inequalities) pairs."""
from fractions import Fraction
from collections import defaultdict
from .ir import lin_of, lin_add, lin_scale, lin_make, walk, truth
from .zone import Zone, key_of
from .affine import Affine, Sys, ONE


LAST = ('tmplast',)     # the value of the last min()/max()


class _Z(Zone):
    def run(self):
        pass


class _A(Affine):
    def run(self):
        pass


class Rel:
    def __init__(self, fn, norm=None, ghost=None, call=None, seed=None, unsigned=(), templates=()):
        """call(rel, sys, zone, instr) -> True when it handled the effect of a call on the state
        seed: list of (row, ) equations on entry"""
        self.fn = fn
        self.norm = norm
        self.z = _Z(fn, norm=norm)
        self.a = _A(fn, norm=norm, ghost=ghost, zone=None)
        self.call = call
        self.seed = seed or []
        self.unsigned = unsigned
        self.templates = self.close(templates)      # (linear form, bound): inequalities worth trying to keep
        self.run()

    def close(self, templates):
        """an inequality over a value that merges others is tried on what is merged, too"""
        fn = self.fn
        out, seen = [], set()
        todo = [(dict(l), b, 0) for l, b in templates]
        while todo and len(out) < 60:
            l, b, d = todo.pop(0)
            k = (tuple(sorted(l.items(), key=repr)), b)
            if k in seen or not l:
                continue
            seen.add(k)
            out.append((l, b))
            if d >= 4:
                continue
            bbs = {fn.ins[t[1]].bb for t in l if t[0] == 'phi'}
            for bb in bbs:
                for pb in fn.pred[bb]:
                    v = (-b, {})
                    ok = True
                    for t, c in l.items():
                        e = t
                        if t[0] == 'phi' and fn.ins[t[1]].bb == bb:
                            inc = [u for q, u in fn.ins[t[1]].raw['in'] if q == pb]
                            e = self.z.n(fn.e(inc[0])) if inc else t
                            if e[0] != 'phi':
                                ok = ok and (e[0] == 'c' or len(l) > 1)
                        v = lin_add(v, lin_scale(lin_of(e), c), 1)
                    if ok and v[1] and all(t[0] in ('phi', 'arg') for t in v[1]):
                        todo.append((v[1], -v[0], d + 1))
        return out

    # ---- queries
    def lin(self, v):
        return self.a.lin(v)

    def lin_e(self, e):
        return self.a.lin_e(e)

    def states(self, x):
        out = []
        for tok, (s, z) in (self.inn[x.bb] or {}).items():
            out += self.through(x.bb, tok, s, z, x)
        return [(s, z) for _, s, z in out]

    def implies(self, x, row):
        return all(imp(s, row) for s, z in self.states(x))

    def le(self, x, a, b, off=0):
        return all(self.z.le(z, a, b, off) or self.le_eq(s, z, a, b, off) for s, z in self.states(x))

    def le_eq(self, s, z, a, b, off=0):
        """a <= b + off by the equations (reduced) and then the inequalities"""
        if self.z.le(z, a, b, off):
            return True
        l = lin_add(lin_of(a), lin_of(b), -1)
        row = {t: Fraction(c) for t, c in l[1].items()}
        if l[0]:
            row[ONE] = Fraction(l[0])
        r = s.reduce(row)
        k = r.pop(ONE, 0)
        if not r:
            return k <= off
        if any(v.denominator != 1 for v in r.values()):
            return False
        items, kk = key_of((0, {t: int(v) for t, v in r.items()}))
        bd = self.z.bound(z, items)
        return bd is not None and bd + k <= off

    # ---- transfer
    def through(self, b, tok, s, z, stop=None):
        """the states after the instructions of block b (up to stop)"""
        cur = [(tok, s.copy(), dict(z))]
        for y in self.fn.blocks[b]:
            if y is stop:
                break
            nxt = []
            for t, s, z in cur:
                nxt += self.step(t, s, z, y)
            cur = nxt
        return cur

    def step(self, tok, s, z, x):
        if x.is_call and x.callee and x.callee.startswith('__sa_m'):
            e = self.fn.e(x.id)
            ne = self.z.n(e)
            if ne[0] in ('min', 'max') and len(ne) == 3:
                out = []
                for i in (0, 1):
                    v, o = ne[1 + i], ne[2 - i]
                    s2, z2 = s.copy(), dict(z)
                    le, lv, lo = lin_of(ne), lin_of(v), lin_of(o)
                    d = lin_add(lv, lo, -1)
                    if ne[0] == 'max':
                        d = lin_scale(d, -1)
                    if bottom(self.z, s2, z2, d):
                        continue
                    self.z.add(z2, d)          # v <= o
                    row = {t: Fraction(c) for t, c in self.a.lin_e(v).items()}
                    row[ne] = row.get(ne, 0) - 1
                    # the term may stand for an earlier evaluation of the same expression: same value, same case
                    s2.add(row)
                    s2.havoc(lambda t: t == LAST)
                    s2.add({LAST: Fraction(1), ne: Fraction(-1)})
                    self.z.add(z2, lin_add(le, lv, -1))
                    self.z.add(z2, lin_add(lv, le, -1))
                    out.append((('zero' if s2.implies({ne: Fraction(1)}) else role(v, o), tok[1]), s2, z2))
                return out
        if x.is_call and self.call and self.call(self, s, z, x):
            return [(tok, s, z)]
        self.a.step(s, x)
        self.z.step(z, x)
        return [(tok, s, z)]

    def edge(self, s, z, a, b):
        fn = self.fn
        t = fn.blocks[a][-1]
        s = s.copy()
        z0 = z
        if t.op == 'br' and len(t.raw['s']) == 2 and t.raw['s'][0] != t.raw['s'][1]:
            tr = t.raw['s'][0] == b
            for c, tt in fn.decomp(t.ops[0], tr):
                c = truth(c, tt)
                if c[0] != 'cmp':
                    continue
                x, y = self.z.n(c[2]), self.z.n(c[3])
                if x[0] in ('null', 's', 'fn', 'g') or y[0] in ('null', 's', 'fn', 'g'):
                    continue
                d = lin_add(lin_of(x), lin_of(y), -1)
                row = {tt_: Fraction(cc) for tt_, cc in d[1].items()}
                if d[0]:
                    row[ONE] = Fraction(d[0])
                if c[1] == 'ne':
                    if imp(s, row):
                        return None
                elif c[1] == 'eq':
                    if const_row(s, row) not in (None, 0):
                        return None
                    if self.z.le(z0, x, y, -1) or self.z.le(z0, y, x, -1):
                        return None
                    s.add(row)
                else:
                    if c[1] in ('ugt', 'uge', 'sgt', 'sge'):
                        x, y = y, x
                        row = {k: -v for k, v in row.items()}
                    strict = c[1] in ('ult', 'ugt', 'slt', 'sgt')
                    # x <= y - strict
                    k = const_row(s, row)
                    if k is not None and k > -strict:
                        return None
                    # y < x - ... known: contradiction
                    if self.z.le(z0, y, x, -1 + strict):
                        return None
                    if self.z.le(z0, y, x, strict):
                        r2 = dict(row)
                        if strict:
                            r2[ONE] = r2.get(ONE, 0) + 1
                        s.add(r2)
        z2 = self.z.edge(z, a, b)
        if self.templates:
            inc = {}
            for p in fn.blocks[b]:
                if p.op != 'phi':
                    break
                atom = fn.e(p.id)
                for pb, v in p.raw['in']:
                    if pb == a and atom[0] == 'phi' and not (isinstance(v, dict) and v.get('k') == 'undef'):
                        inc[atom] = self.z.n(fn.e(v))
            zc = dict(z)
            if inc and t.op == 'br' and len(t.raw['s']) == 2 and t.raw['s'][0] != t.raw['s'][1]:
                for c, tt in fn.decomp(t.ops[0], t.raw['s'][0] == b):
                    self.z.assume(zc, truth(c, tt))
            for l, bd in self.templates:
                if not any(k in inc for k in l):
                    continue
                v = (0, {})
                for k, c in l.items():
                    v = lin_add(v, lin_scale(lin_of(inc.get(k, k)), c), 1)
                if self.le_eq(s, zc, lin_make(v), ('c', bd)):
                    items, _ = key_of((0, l))
                    if items not in z2 or z2[items] > bd:
                        z2[items] = bd
        # the equations: reuse the phi handling of Affine without its own conditions
        s2 = self.a.edge(s, a, b, conds=False)
        return s2, z2

    def join(self, old, new, n):
        s0, z0 = old
        s1, z1 = new
        s = s0.join(s1)
        m = {}
        for it, c in z0.items():
            c2 = z1.get(it)
            if c2 is None:
                c2 = self.z.bound(z1, it, 1)
                if c2 is None:
                    c2 = self.by_eq(s1, z1, it)
            if c2 is None:
                continue
            if c2 <= c:
                m[it] = c
            else:
                w = self.z.widen(it, c2, n)
                if w is not None:
                    m[it] = w
        if n < 3:
            for it, c in z1.items():
                if it not in z0:
                    c1 = self.z.bound(z0, it, 1)
                    if c1 is None:
                        c1 = self.by_eq(s0, z0, it)
                    if c1 is not None:
                        m[it] = max(c, c1)
        return s, m

    def by_eq(self, s, z, it):
        row = {t: Fraction(c) for t, c in it}
        r = s.reduce(row)
        if r == row:
            return None
        k = r.pop(ONE, 0)
        if not r:
            return k
        if any(v.denominator != 1 for v in r.values()):
            return None
        b = self.z.bound(z, key_of((0, {t: int(v) for t, v in r.items()}))[0], 1)
        return None if b is None else b + k

    def flags(self, b):
        """predecessor -> did it bring a constant that the merged value is compared with later"""
        r = self._fl.get(b)
        if r is None:
            r = self._fl[b] = {}
            fn = self.fn
            for p in fn.blocks[b]:
                if p.op != 'phi':
                    break
                if not p.raw['t'].startswith('i') or any(fn.bdom(b, pb) for pb, _ in p.raw['in']):
                    continue
                ks = {pb: fn.e(v)[1] for pb, v in p.raw['in'] if fn.e(v)[0] == 'c'}
                if not ks or len(ks) == len(p.raw['in']) and len(set(ks.values())) == 1:
                    continue
                used = set()
                for u in fn.users[p.id]:
                    us = [u] + (list(fn.users[u.id]) if u.op in ('zext', 'sext', 'trunc') else [])
                    for w in us:
                        if w.op == 'icmp':
                            for o in w.ops:
                                e = fn.e(o)
                                if e[0] == 'c':
                                    used.add(e[1])
                if set(ks.values()) & used:
                    for pb, v in p.raw['in']:
                        r[pb] = ks.get(pb) in used
                    break
        return r

    def run(self):
        fn = self.fn
        self._fl = {}
        n = len(fn.blocks)
        fn.dom
        self.inn = [None] * n
        s0 = Sys()
        for r in self.seed:
            s0.add(r)
        z0 = {}
        for t in self.unsigned:
            self.z.add(z0, (0, {t: -1}))
        self.inn[0] = {(None, None): (s0, z0)}
        work = [0]
        cnt = defaultdict(int)
        tot = 0
        while work:
            b = work.pop(0)
            tot += 1
            if tot > 20000:
                raise RuntimeError('the relational analysis of %s does not terminate' % fn.q)
            for tok, (s, z) in list(self.inn[b].items()):
                for t2, s2, z2 in self.through(b, tok, s, z):
                    for d in fn.nsucc[b]:
                        e = self.edge(s2, z2, b, d)
                        if e is None:
                            continue
                        tk = t2
                        if t2[0] is not None and e[0].implies({LAST: Fraction(1)}):
                            tk = ('zero', tk[1])
                        fl = self.flags(d).get(b)
                        if fl is not None:
                            tk = (tk[0], fl)
                        cur = self.inn[d]
                        if cur is None:
                            cur = self.inn[d] = {}
                        if tk not in cur:
                            cur[tk] = e
                            ch = True
                        else:
                            k = (d, tk)
                            j = self.join(cur[tk], e, cnt[k])
                            ch = j[1] != cur[tk][1] or j[0].key() != cur[tk][0].key()
                            if ch:
                                cnt[k] += 1
                                if cnt[k] > 30:
                                    j = (j[0], {})
                                cur[tk] = j
                        if ch and d not in work:
                            work.append(d)


def role(v, o):
    """a name for the case that does not depend on the instruction: the side bounded by a constant, or the other"""
    return v[0] == 'c' or (lin_of(v)[0] > 0 and o[0] != 'c')


def const_row(s, row):
    r = s.reduce(row)
    k = r.pop(ONE, 0)
    return k if not r else None


def imp(s, row):
    return s.implies(row)


def bottom(zo, s, z, d):
    """is  d <= 0  impossible"""
    l = lin_scale(d, -1)
    items, k = key_of(l)
    if not items:
        return d[0] > 0
    b = zo.bound(z, items)
    return b is not None and b + k < 0
