"""Forward dataflow of linear inequalities between symbolic expressions (a sparse zone-like domain).

A state maps a linear combination K (tuple of (term, coef)) to a bound c, meaning  sum(coef*term) <= c.
Facts come from branch conditions; they survive joins with the weaker bound, phi nodes and stores rename or
drop them, loops are widened by dropping whatever does not stabilise.  Integer widths and wrap-around are
ignored (stated in DESIGN.md); unsigned comparisons also give non-negativity of the smaller side."""
from .ir import lin_of, lin_add, lin_scale, lin_make, walk, mk_cmp, truth
from collections import defaultdict


def key_of(l):
    k, d = l
    items = tuple(sorted(d.items(), key=lambda z: repr(z[0])))
    return items, k


class Zone:
    def __init__(self, fn, effects=None, norm=None):
        self.fn = fn
        self.norm = norm
        self._n = {}
        self.effects = effects  # callback(call instr) -> list of (term, delta) increments, or None
        self.inst = {}
        self.run()

    def n(self, e):
        if self.norm is None:
            return e
        r = self._n.get(e)
        if r is None:
            r = self._n[e] = self.norm(e)
        return r

    # ---- constraint construction
    def add(self, st, l, ne=None):
        """sum + k <= 0"""
        items, k = key_of(l)
        if not items:
            return
        c = -k
        if items in st:
            if c < st[items]:
                st[items] = c
        else:
            st[items] = c

    def assume(self, st, cond):
        if cond[0] == 'in':
            vs = cond[2]
            self.assume(st, mk_cmp('sge', cond[1], ('c', min(vs))))
            self.assume(st, mk_cmp('sle', cond[1], ('c', max(vs))))
            return
        if cond[0] != 'cmp':
            return
        p, a, b = cond[1], self.n(cond[2]), self.n(cond[3])
        if a[0] in ('null', 's', 'fn', 'g') or b[0] in ('null', 's', 'fn', 'g'):
            if p == 'ne' and ('null',) in (a, b):
                st[(('nn', a if b == ('null',) else b), 1),] = 0
            return
        la, lb = lin_of(a), lin_of(b)
        d = lin_add(la, lb, -1)
        nd = lin_add(lb, la, -1)
        if p in ('ult', 'slt'):
            self.add(st, lin_add(d, (1, {}), 1))
            if p == 'ult':
                self.add(st, lin_scale(la, -1))
        elif p in ('ule', 'sle'):
            self.add(st, d)
            if p == 'ule':
                self.add(st, lin_scale(la, -1))
        elif p in ('ugt', 'sgt'):
            self.add(st, lin_add(nd, (1, {}), 1))
            if p == 'ugt':
                self.add(st, lin_scale(lb, -1))
        elif p in ('uge', 'sge'):
            self.add(st, nd)
            if p == 'uge':
                self.add(st, lin_scale(lb, -1))
        elif p == 'eq':
            self.add(st, d)
            self.add(st, nd)
        elif p == 'ne':
            # x != y with x <= y known  =>  x < y
            for q in (d, nd):
                items, k = key_of(q)
                b0 = self.bound(st, items)
                if b0 is not None and b0 == -k:
                    self.add(st, lin_add(q, (1, {}), 1))

    # ---- queries
    def bound(self, st, items, depth=2):
        """smallest provable c with sum(items) <= c"""
        if not items:
            return 0
        best = st.get(items)
        d = dict(items)
        if len(d) <= 3 and depth > 0:
            # constants of the form const-udiv: (x / k) * k <= x
            # combine with one other fact that cancels a term
            for it, c in list(st.items()):
                if it == items or not any(t in d and d[t] * cc > 0 for t, cc in it):
                    continue
                # items = it + rest
                dd = dict(d)
                for t, cc in it:
                    dd[t] = dd.get(t, 0) - cc
                    if dd[t] == 0:
                        del dd[t]
                if len(dd) >= len(d) + 1 or len(dd) > 2:
                    continue
                rest = tuple(sorted(dd.items(), key=lambda z: repr(z[0])))
                r = 0 if not rest else self.bound(st, rest, depth - 1)
                if r is not None and (best is None or c + r < best):
                    best = c + r
        # x - k * (x / k) <= k - 1  and  k * (x / k) - x <= 0
        if len(d) >= 2:
            for t, cc in items:
                if t[0] == 'op' and t[1] == 'udiv' and t[3][0] == 'c' and t[3][1] > 0:
                    k, x = t[3][1], lin_of(t[2])
                    for sg in (1, -1):
                        # sg * (x - k * t) plus rest
                        if cc * sg < 0 and cc % k == 0:
                            m = abs(cc) // k
                            rest = lin_add((0, d), lin_scale((0, {t: -k, **x[1]} if t not in x[1] else x[1]), sg * m), -1)
                            if t not in rest[1] and len(rest[1]) < len(d):
                                b = (k - 1) * m if sg == 1 else 0
                                b -= sg * m * x[0]
                                r = 0 if not rest[1] else self.bound(st, key_of((0, rest[1]))[0], depth - 1) if depth > 0 else None
                                if r is not None and (best is None or b + r < best):
                                    best = b + r
        # intrinsic bounds
        tot = 0
        ok = True
        for t, cc in items:
            b = self.intrinsic(t, cc, st, depth)
            if b is None:
                ok = False
                break
            tot += b
        if ok and (best is None or tot < best):
            best = tot
        return best

    def intrinsic(self, t, c, st, depth):
        if t[0] == 'op' and t[1] == 'urem' and t[3][0] == 'c' and c > 0:
            return c * (t[3][1] - 1)
        if t[0] == 'op' and t[1] == 'and':
            for z in (t[2], t[3]):
                if z[0] == 'c' and z[1] >= 0 and c > 0:
                    return c * z[1]
        if t[0] == 'op' and t[1] in ('urem', 'and', 'udiv') and c < 0:
            return 0
        if t[0] in ('size',) and c < 0:
            return 0
        if t[0] == 'min' and c > 0 and depth > 0:
            bs = [self.bound(st, key_of(lin_scale(lin_of(z), c))[0], depth - 1) for z in t[1:]]
            ks = [lin_scale(lin_of(z), c)[0] for z in t[1:]]
            v = [b + k for b, k in zip(bs, ks) if b is not None]
            return min(v) if v else None
        return None

    def le(self, st, a, b, off=0):
        """a <= b + off provable"""
        if st is None:
            return True   # unreachable
        l = lin_add(lin_of(a), lin_of(b), -1)
        # expand min() on the left: a = min(x,y) <= b if x <= b or y <= b
        for t, c in l[1].items():
            if t[0] == 'min' and c == 1:
                rest = dict(l[1])
                del rest[t]
                for z in t[1:]:
                    l2 = lin_add((l[0], rest), lin_of(z), 1)
                    items, k = key_of(l2)
                    bd = self.bound(st, items)
                    if bd is not None and bd + k <= off:
                        return True
        items, k = key_of(l)
        bd = self.bound(st, items)
        return bd is not None and bd + k <= off

    def lt(self, st, a, b):
        return self.le(st, a, b, -1)

    # ---- transfer
    def kill(self, st, pred):
        for it in [it for it in st if any(pred(t) for t, _ in it)]:
            del st[it]

    def forget(self, st, term):
        self.kill(st, lambda t: any(s == term for s in walk(t)))

    def step(self, st, x):
        fn = self.fn
        if x.op == 'store':
            a = fn.e(x.ops[1])
            atom = ('ld', a)
            v = self.n(fn.e(x.ops[0]))
            lv = lin_of(v)
            # shift: v = atom + k
            if dict(lv[1]) == {atom: 1}:
                k = lv[0]
                for it in list(st):
                    d = dict(it)
                    if atom in d:
                        st[it] = st[it] + k * d[atom]
                    elif any(s == atom for t, _ in it for s in walk(t)):
                        del st[it]
                return
            self.kill(st, lambda t: any(same_loc(s, atom) for s in walk(t)))
            if not any(s == atom for s in walk(v)) and v[0] not in ('undef',):
                l = lin_add((0, {atom: 1}), lv, -1)
                self.add(st, l)
                self.add(st, lin_scale(l, -1))
            return
        if x.is_call:
            if self.effects:
                for term, delta in (self.effects(x) or ()):
                    if delta is None:
                        self.forget(st, term)
                        continue
                    for it in list(st):
                        d = dict(it)
                        if term in d:
                            st[it] = st[it] + delta * d[term]
            e = fn.e(x.id)
            if e == ('res', x.id):
                self.forget(st, e)
            return
        if x.op not in ('br', 'ret', 'phi'):
            e = ('res', x.id)
            if x.id in fn._expr and fn._expr[x.id] == e:
                self.forget(st, e)
                if x.op == 'load':
                    self.assume(st, ('cmp', 'eq', e, ('ld', fn.e(x.ops[0]))))

    def eliminate(self, st, t):
        """express what is known about t by something else before it is forgotten"""
        eqs = []
        for it, c in st.items():
            d = dict(it)
            if abs(d.get(t, 0)) == 1 and not any(s == t for z, _ in it if z != t for s in walk(z)):
                neg = tuple((z, -k) for z, k in it)
                if st.get(neg) == -c:
                    eqs.append((sum(1 for z in d if z[0] == 'tmp') == 0, len(d), repr(it), it, c))
        if not eqs:
            return
        _, _, _, it, c = min(eqs)
        d = dict(it)
        s = d.pop(t)
        # s*t + d = c   =>   t = s*(c - d)
        sub = (s * c, {z: -s * k for z, k in d.items()})
        for jt, jc in list(st.items()):
            e = dict(jt)
            k = e.pop(t, 0)
            if not k or set(e) == set(d):
                continue
            l = lin_add((-jc, e), lin_scale(sub, k), 1)
            if len(l[1]) <= 6:
                self.add(st, l)

    def edge(self, st, a, b):
        """state along CFG edge a->b"""
        fn = self.fn
        st = dict(st)
        t = fn.blocks[a][-1]
        if t.op == 'br' and len(t.raw['s']) == 2 and t.raw['s'][0] != t.raw['s'][1]:
            tr = t.raw['s'][0] == b
            for c, tt in fn.decomp(t.ops[0], tr):
                self.assume(st, truth(c, tt))
        elif t.op == 'switch':
            c = fn.e(t.ops[0])
            vs = [v for v, s in t.raw['cases'] if s == b]
            if t.raw['def'] != b and vs:
                self.assume(st, ('in', c, tuple(vs)) if len(vs) > 1 else mk_cmp('eq', c, ('c', vs[0])))
        phis = [x for x in fn.blocks[b] if x.op == 'phi']
        if phis:
            tmp = []
            for p in phis:
                e = fn._expr.get(p.id)
                atom = fn.e(p.id)
                if atom[0] != 'phi' or not p.raw['t'].startswith('i'):
                    continue
                inc = [v for pb, v in p.raw['in'] if pb == a]
                if inc:
                    tmp.append((p, atom, self.n(fn.e(inc[0]))))
            for i, (p, atom, v) in enumerate(tmp):
                lv = lin_of(v)
                if v[0] == 'undef':
                    continue
                # bounds of tmp through v
                l = lin_add((0, {('tmp', i): 1}), lv, -1)
                self.add(st, l)
                self.add(st, lin_scale(l, -1))
                # tmp = .. + min(x, y) + ..  gives  tmp <= .. + x + ..
                for t, c in lv[1].items():
                    if (t[0] == 'min' and c > 0) or (t[0] == 'max' and c < 0):
                        for z in t[1:]:
                            self.add(st, lin_add(l, lin_scale(lin_add((0, {t: 1}), lin_of(z), -1), c), 1))
                    if (t[0] == 'max' and c > 0) or (t[0] == 'min' and c < 0):
                        for z in t[1:]:
                            self.add(st, lin_scale(lin_add(l, lin_scale(lin_add((0, {t: 1}), lin_of(z), -1), c), 1), -1))
            gone = [atom for p, atom, v in tmp]
            for i, (p, atom, v) in enumerate(tmp):
                if v == atom:
                    continue
                self.eliminate(st, atom)
            # a value that did not change and is used by nothing else carries its own constraints over
            for i, (p, atom, v) in enumerate(tmp):
                lv = lin_of(v)
                if len(lv[1]) == 1 and v[0] != 'undef':
                    (tt, cc), = lv[1].items()
                    if cc == 1:
                        for it in list(st):
                            d = dict(it)
                            if tt in d and len(d) > 1 and ('tmp', i) not in d:
                                co = d.pop(tt)
                                d[('tmp', i)] = co
                                items = tuple(sorted(d.items(), key=lambda z: repr(z[0])))
                                c = st[it] + co * lv[0]
                                if items not in st or c < st[items]:
                                    st[items] = c
            for p, atom, v in tmp:
                self.forget(st, atom)
            ren = {('tmp', i): atom for i, (p, atom, v) in enumerate(tmp)}
            if ren:
                for it in list(st):
                    if any(t in ren for t, _ in it):
                        c = st.pop(it)
                        items = tuple(sorted(((ren.get(t, t), k) for t, k in it), key=lambda z: repr(z[0])))
                        if len({t for t, _ in items}) == len(items) and (items not in st or c < st[items]):
                            st[items] = c
        return st

    def thresholds(self):
        """bounds the program itself compares with: where a growing bound may settle"""
        if getattr(self, '_th', None) is None:
            th = self._th = defaultdict(set)
            for b in self.fn.blocks:
                t = b[-1]
                if t.op != 'br' or len(t.raw['s']) != 2:
                    continue
                for tr in (True, False):
                    for c, tt in self.fn.decomp(t.ops[0], tr):
                        st = {}
                        self.assume(st, truth(c, tt))
                        for it, v in st.items():
                            th[it] |= {v, v + 1}
        return self._th

    def widen(self, it, c, n):
        """the bound to try next for a bound that keeps growing (n: how often it grew)"""
        if n < 3:
            return c
        if n < 10:
            l = [v for v in self.thresholds().get(it, ()) if v >= c]
            if l:
                return min(l)
        return None

    def run(self):
        fn = self.fn
        n = len(fn.blocks)
        self.inn = [None] * n
        self.inn[0] = {}
        cnt = defaultdict(int)
        work = [0]
        fn.dom
        while work:
            b = work.pop(0)
            st = dict(self.inn[b])
            for x in fn.blocks[b]:
                self.step(st, x)
            for s in fn.succ[b]:
                ns = self.edge(st, b, s)
                old = self.inn[s]
                if old is None:
                    self.inn[s] = ns
                    if s not in work:
                        work.append(s)
                else:
                    m = {}
                    for it, c in old.items():
                        c2 = ns.get(it)
                        if c2 is None:
                            c2 = self.bound(ns, it, 1)
                        if c2 is None:
                            continue
                        if c2 <= c:
                            m[it] = c
                        else:
                            w = self.widen(it, c2, cnt[s])
                            if w is not None:
                                m[it] = w
                    if cnt[s] < 2:
                        for it, c in ns.items():
                            if it not in old:
                                c1 = self.bound(old, it, 1)
                                if c1 is not None:
                                    m[it] = max(c, c1)
                    if m != old:
                        cnt[s] += 1
                        if cnt[s] > 30:
                            m = {}
                        self.inn[s] = m
                        if s not in work:
                            work.append(s)

    def at(self, x):
        """state just before instruction x"""
        st = self.inn[x.bb]
        if st is None:
            return None
        st = dict(st)
        for y in self.fn.blocks[x.bb]:
            if y is x:
                break
            self.step(st, y)
        return st


def same_loc(s, atom):
    if s == atom:
        return True
    # same field of a possibly different object: be conservative only for identical base
    return False
