"""Affine relations between SSA values (Karr 1976), with ghost variables: a forward dataflow analysis whose state
is the set of linear equations that hold.  The inequality analysis (zone.py) turns one-sided branch conditions
into equations where the other side is already known."""
from fractions import Fraction
from .ir import lin_of, lin_add, lin_scale, walk, truth
from .zone import Zone, same_loc

ONE = ('one',)


class Sys:
    """reduced row echelon form of equations sum(coef*atom) = 0 (ONE is the constant)"""

    def __init__(self, rows=None):
        self.rows = rows or {}     # pivot atom -> dict (pivot coef 1)

    def copy(self):
        return Sys({k: dict(v) for k, v in self.rows.items()})

    def reduce(self, r):
        r = dict(r)
        for a in list(r):
            if a in self.rows and r.get(a):
                c = r[a]
                for t, k in self.rows[a].items():
                    r[t] = r.get(t, 0) - c * k
                    if r[t] == 0:
                        del r[t]
        # a reduction may bring no new pivots in: rows are fully reduced
        return r

    def add(self, r):
        r = self.reduce({k: Fraction(v) for k, v in r.items() if v})
        if not r:
            return
        piv = [a for a in r if a != ONE]
        if not piv:
            return      # contradiction: unreachable; ignore
        p = max(piv, key=lambda a: (a[0] in ('tmp',), a[0] == 'idx', repr(a)))
        c = r[p]
        r = {k: v / c for k, v in r.items()}
        for q, row in self.rows.items():
            if row.get(p):
                k = row[p]
                for t, v in r.items():
                    row[t] = row.get(t, 0) - k * v
                    if row[t] == 0:
                        del row[t]
        self.rows[p] = r

    def havoc(self, pred):
        for _ in range(1000):
            hit = None
            for p, row in self.rows.items():
                for a in row:
                    if a != ONE and pred(a):
                        hit = (p, a)
                        break
                if hit:
                    break
            if not hit:
                return
            p, a = hit
            # eliminate a: use row p (make a its pivot), then drop it
            row = self.rows.pop(p)
            c = row[a]
            row = {k: v / c for k, v in row.items()}
            others = list(self.rows.items())
            self.rows = {}
            for q, r in others:
                k = r.get(a)
                if k:
                    for t, v in row.items():
                        r[t] = r.get(t, 0) - k * v
                        if r[t] == 0:
                            del r[t]
                self.add(r)

    def implies(self, r):
        return not self.reduce({k: Fraction(v) for k, v in r.items() if v})

    def key(self):
        return tuple(sorted((repr(p), tuple(sorted((repr(k), v) for k, v in r.items()))) for p, r in self.rows.items()))

    def join(self, o):
        A = list(self.rows.values())
        B = list(o.rows.values())
        if not A or not B:
            return Sys()
        cols = sorted({a for r in A + B for a in r}, key=repr)
        n, m = len(A), len(B)
        # null space of [A^T | -B^T]
        M = []
        for c in cols:
            M.append([r.get(c, Fraction(0)) for r in A] + [-r.get(c, Fraction(0)) for r in B])
        w = n + m
        piv = {}
        row = 0
        for c in range(w):
            s = next((i for i in range(row, len(M)) if M[i][c] != 0), None)
            if s is None:
                continue
            M[row], M[s] = M[s], M[row]
            k = M[row][c]
            M[row] = [v / k for v in M[row]]
            for i in range(len(M)):
                if i != row and M[i][c] != 0:
                    k = M[i][c]
                    M[i] = [v - k * u for v, u in zip(M[i], M[row])]
            piv[c] = row
            row += 1
            if row == len(M):
                break
        out = Sys()
        for free in range(w):
            if free in piv:
                continue
            x = [Fraction(0)] * w
            x[free] = Fraction(1)
            for c, r in piv.items():
                x[c] = -M[r][free]
            comb = {}
            for i in range(n):
                if x[i]:
                    for t, v in A[i].items():
                        comb[t] = comb.get(t, 0) + x[i] * v
                        if comb[t] == 0:
                            del comb[t]
            if comb:
                out.add(comb)
        return out


class Affine:
    def __init__(self, fn, norm=None, ghost=None, zone=None):
        """norm: expression -> expression (e.g. replace the page size by a constant)
        ghost(instr) -> linear form assigned to the ghost ('idx', atom) of the instruction's result, or None"""
        self.fn = fn
        self.norm = norm or (lambda e: e)
        self.ghost = ghost
        self.zone = zone
        self._c = {}
        self.run()

    def lin(self, v):
        e = self.fn.e(v) if not isinstance(v, tuple) else v
        return self.lin_e(e)

    def lin_e(self, e):
        if e in self._c:
            return self._c[e]
        e2 = self.norm(e)
        k, d = self.flat(e2)
        r = {t: Fraction(c) for t, c in d.items() if c}
        if k:
            r[ONE] = Fraction(k)
        self._c[e] = r
        return r

    def flat(self, e):
        if e[0] == 'c':
            return (e[1], {})
        if e == ('null',):
            return (0, {})
        if e[0] == 'lin':
            acc = (e[1], {})
            for t, c in e[2]:
                acc = lin_add(acc, lin_scale(self.flat(t), c), 1)
            return acc
        if e[0] == 'elt' and e[3] not in (-1, 0):
            return lin_add(self.flat(e[1]), lin_scale(self.flat(e[2]), e[3]), 1)
        if e[0] == 'op' and e[1] == 'mul':
            a, b = self.flat(e[2]), self.flat(e[3])
            if not a[1]:
                return lin_scale(b, a[0])
            if not b[1]:
                return lin_scale(a, b[0])
        return (0, {e: 1})

    def assign(self, st, atom, r):
        st.havoc(lambda a: a == atom or a[0] != 'one' and mentions(a, atom))
        row = dict(r)
        row[atom] = row.get(atom, 0) - 1
        st.add(row)

    def step(self, st, x):
        fn = self.fn
        if x.op == 'phi' or x.op in ('br', 'switch', 'ret'):
            return
        if x.op == 'store':
            a = fn.e(x.ops[1])
            ld = ('ld', a)
            v = self.lin(x.ops[0])
            tmp = ('tmp', 'st')
            row = dict(v)
            row[tmp] = Fraction(-1)
            st.add(row)
            st.havoc(lambda t: t[0] not in ('tmp', 'one') and any(same_loc(s, ld) for s in walk(t)))
            st.add({tmp: Fraction(1), ld: Fraction(-1)})
            st.havoc(lambda t: t == tmp)
            return
        e = fn.e(x.id) if x.raw.get('t', 'void') != 'void' else None
        if e == ('res', x.id):
            if x.op == 'load':
                st.havoc(lambda t: mentions(t, e))
                st.add({e: Fraction(1), ('ld', fn.e(x.ops[0])): Fraction(-1)})
                return
            g = self.ghost(self, x) if self.ghost else None
            gid = ('idx', e)
            st.havoc(lambda t: mentions(t, e) and t != gid)
            st.havoc(lambda t: t == gid)
            if g is not None:
                row = dict(g)
                row[gid] = row.get(gid, 0) - 1
                st.add(row)

    def edge(self, st, a, b, conds=True):
        fn = self.fn
        st = st.copy()
        t = fn.blocks[a][-1]
        if conds and t.op == 'br' and len(t.raw['s']) == 2 and t.raw['s'][0] != t.raw['s'][1]:
            tr = t.raw['s'][0] == b
            for c, tt in fn.decomp(t.ops[0], tr):
                c = truth(c, tt)
                if c[0] == 'cmp' and c[1] in ('eq', 'ule', 'uge', 'sle', 'sge', 'ult', 'ugt', 'slt', 'sgt', 'ne'):
                    self.cond(st, a, t, c)
        phis = [x for x in fn.blocks[b] if x.op == 'phi']
        tmp = []
        for p in phis:
            atom = fn.e(p.id)
            if atom[0] != 'phi':
                continue
            inc = [v for pb, v in p.raw['in'] if pb == a]
            if not inc or (isinstance(inc[0], dict) and inc[0].get('k') == 'undef'):
                tmp.append((atom, None, None))
                continue
            e = fn.e(inc[0])
            gl = None
            if p.raw['t'] == 'ptr':
                gl = ('idx', e)
            tmp.append((atom, self.lin(inc[0]), gl))
        for i, (atom, r, gl) in enumerate(tmp):
            if r is not None:
                row = dict(r)
                row[('tmp', i)] = Fraction(-1)
                st.add(row)
                if gl is not None:
                    st.add({gl: Fraction(1), ('tmp', 'g', i): Fraction(-1)})
        for atom, r, gl in tmp:
            st.havoc(lambda t: t == ('idx', atom) or mentions(t, atom))
        for i, (atom, r, gl) in enumerate(tmp):
            st.add({('tmp', i): Fraction(1), atom: Fraction(-1)}) if r is not None else None
            if gl is not None:
                st.add({('tmp', 'g', i): Fraction(1), ('idx', atom): Fraction(-1)})
        st.havoc(lambda t: t[0] == 'tmp')
        return st

    def cond(self, st, a, t, c):
        la, lb = self.flat(self.norm(c[2])), self.flat(self.norm(c[3]))
        if c[1] == 'eq':
            self.eq(st, la, lb, 0)
            return
        if self.zone is None or c[1] == 'ne':
            return
        z = self.zone
        zs = z.inn[a]
        if zs is None:
            return
        zs = z.at(t)
        x, y = (c[2], c[3]) if c[1] in ('ule', 'sle', 'ult', 'slt') else (c[3], c[2])
        off = -1 if c[1] in ('ult', 'slt', 'ugt', 'sgt') else 0
        # x <= y + off holds; if also y + off <= x then equal
        if z.le(zs, z.n(y), z.n(x), -off):
            self.eq(st, self.flat(self.norm(x)), self.flat(self.norm(y)), off)

    def eq(self, st, la, lb, off):
        d = lin_add(la, lb, -1)
        r = {t: Fraction(c) for t, c in d[1].items()}
        k = d[0] - off
        if k:
            r[ONE] = Fraction(k)
        st.add(r)

    def run(self):
        fn = self.fn
        n = len(fn.blocks)
        fn.dom
        self.inn = [None] * n
        self.inn[0] = Sys()
        work = [0]
        cnt = 0
        while work:
            b = work.pop(0)
            cnt += 1
            if cnt > 20000:
                raise RuntimeError('affine analysis of %s does not terminate' % fn.q)
            st = self.inn[b].copy()
            for x in fn.blocks[b]:
                self.step(st, x)
            for s in fn.nsucc[b]:
                ns = self.edge(st, b, s)
                if self.inn[s] is None:
                    self.inn[s] = ns
                    work.append(s)
                else:
                    j = self.inn[s].join(ns)
                    if j.key() != self.inn[s].key():
                        self.inn[s] = j
                        if s not in work:
                            work.append(s)

    def at(self, x):
        st = self.inn[x.bb]
        if st is None:
            return None
        st = st.copy()
        for y in self.fn.blocks[x.bb]:
            if y is x:
                break
            self.step(st, y)
        return st

    def equal(self, st, la, lb):
        r = dict(la)
        for t, c in lb.items():
            r[t] = r.get(t, 0) - c
        return st.implies(r)


def mentions(t, e):
    return any(s == e for s in walk(t)) if t[0] not in ('tmp', 'one') else False
