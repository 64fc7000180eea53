"""Program model over the extracted IR: CFG, dominators, call graph, symbolic expressions."""
import re
from functools import lru_cache
from collections import defaultdict

PURE_CALLS = {  # library accessors folded into expressions: qualified-name regex -> kind
}
_RX = [
    (re.compile(r'^std::vector<.*>::(size)$'), 'size'),
    (re.compile(r'^std::(__cxx11::)?basic_string<.*>::(size|length)$'), 'size'),
    (re.compile(r'^std::vector<.*>::(data|begin|cbegin)$'), 'data'),
    (re.compile(r'^std::(__cxx11::)?basic_string<.*>::(c_str|data)$'), 'cstr'),
    (re.compile(r'^std::(vector|array)<.*>::(operator\[\]|at)$'), 'elem'),
    (re.compile(r'^std::(__cxx11::)?basic_string<.*>::(operator\[\]|at)$'), 'elem'),
    (re.compile(r'^std::(__)?(shared|unique)_ptr(_access)?<.*>::(get|operator->|operator\*|_M_get)$'), 'sget'),
    (re.compile(r'^std::(__)?(shared|unique)_ptr(_access)?<.*>::operator bool$'), 'sbool'),
    (re.compile(r'^std::(min)$'), 'min'), (re.compile(r'^std::(max)$'), 'max'),
    (re.compile(r'^std::(move|forward)$'), 'ident'),
]


def short(q):
    return q


class Instr:
    __slots__ = ('fn', 'id', 'op', 'bb', 'pos', 'raw')

    def __init__(self, fn, raw, bb, pos):
        self.fn = fn
        self.raw = raw
        self.id = raw['i']
        self.op = raw['op']
        self.bb = bb
        self.pos = pos

    @property
    def loc(self):
        l = self.raw.get('l')
        if not l or not l[1]:
            return '%s:%d' % (self.fn.file, self.fn.line)
        return '%s:%d' % (l[0], l[1])

    @property
    def ops(self):
        return self.raw.get('a') if 'a' in self.raw else self.raw.get('o', [])

    @property
    def is_call(self):
        return self.op in ('call', 'invoke')

    @property
    def callee(self):
        return self.raw.get('f')

    def __repr__(self):
        return '<%s %s@%s>' % (self.op, self.id, self.loc)


PURE = ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'add', 'sub', 'mul', 'shl', 'xor', 'and', 'or', 'udiv', 'sdiv',
        'urem', 'srem', 'lshr', 'ashr', 'icmp', 'select', 'getelementptr')


class Fn:
    def __init__(self, prog, name, raw):
        self.prog = prog
        self.name = name
        self.q = raw['q']
        self.d = raw['d']
        self.file = raw['file']
        self.line = raw['line']
        self.nargs = raw['nargs']
        self.args = raw['args']
        self.raw = raw
        self.virt = raw.get('virt')
        self.vnames = {int(k): v for k, v in raw['names'].items()}
        self.blocks = []
        self.ins = {}
        for bi, b in enumerate(raw['b']):
            lst = []
            for pi, r in enumerate(b):
                x = Instr(self, r, bi, pi)
                lst.append(x)
                self.ins[x.id] = x
            self.blocks.append(lst)
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]      # all edges
        self.nsucc = [[] for _ in range(n)]     # non-exceptional edges
        for bi, b in enumerate(self.blocks):
            t = b[-1]
            if t.op == 'br':
                s = list(t.raw['s'])
                self.nsucc[bi] = s
            elif t.op == 'switch':
                s = [c[1] for c in t.raw['cases']] + [t.raw['def']]
                self.nsucc[bi] = s
            elif t.op == 'invoke':
                s = [t.raw['n'], t.raw['u']]
                self.nsucc[bi] = [t.raw['n']]
                if prog.is_noreturn(t.callee):
                    s = [t.raw['u']]
                    self.nsucc[bi] = []
            else:
                s = []
                self.nsucc[bi] = []
            self.succ[bi] = s
        self.pred = [[] for _ in range(n)]
        for a, ss in enumerate(self.succ):
            for c in ss:
                if a not in self.pred[c]:
                    self.pred[c].append(a)
        self.npred = [[] for _ in range(n)]
        for a, ss in enumerate(self.nsucc):
            for c in ss:
                if a not in self.npred[c]:
                    self.npred[c].append(a)
        self._dom = None
        self._users = None
        self._expr = {}
        self._stored = None
        self._guards = {}
        self._came = set()
        self._ways = None
        self._allocas = {}

    # ---- basic queries
    def all(self):
        for b in self.blocks:
            for x in b:
                yield x

    def calls(self):
        for b in self.blocks:
            for x in b:
                if x.op in ('call', 'invoke'):
                    yield x

    def rets(self):
        return [b[-1] for b in self.blocks if b[-1].op == 'ret']

    def argname(self, i):
        return self.vnames.get(i, 'arg%d' % i)

    @property
    def users(self):
        if self._users is None:
            u = defaultdict(list)
            for x in self.all():
                for o in self._opids(x):
                    u[o].append(x)
            self._users = u
        return self._users

    def _opids(self, x):
        out = []
        for o in x.ops:
            if isinstance(o, int):
                out.append(o)
        if x.op == 'phi':
            out = [v for _, v in x.raw['in'] if isinstance(v, int)]
        if 'fv' in x.raw and isinstance(x.raw['fv'], int):
            out.append(x.raw['fv'])
        return out

    # ---- dominators (bitsets) over the full CFG
    @property
    def dom(self):
        if self._dom is None:
            self._dom = self._compute_dom(self.succ, self.pred)
        return self._dom

    def _compute_dom(self, succ, pred):
        n = len(self.blocks)
        reach = set()
        order = []
        st = [(0, iter(succ[0]))]
        reach.add(0)
        while st:
            b, it = st[-1]
            for c in it:
                if c not in reach:
                    reach.add(c)
                    st.append((c, iter(succ[c])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        full = (1 << n) - 1
        dom = [full] * n
        dom[0] = 1
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == 0:
                    continue
                d = full
                for p in pred[b]:
                    if p in reach:
                        d &= dom[p]
                d |= 1 << b
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        self.reach = reach
        return dom

    def dominates(self, a, b):
        """instruction a dominates instruction b"""
        if a.bb == b.bb:
            return a.pos <= b.pos
        return bool(self.dom[b.bb] >> a.bb & 1)

    def bdom(self, a, b):
        return bool(self.dom[b] >> a & 1)

    def reachable_from(self, b, succ=None, avoid=()):
        succ = succ or self.succ
        seen = set()
        st = [s for s in succ[b] if s not in avoid]
        while st:
            c = st.pop()
            if c in seen:
                continue
            seen.add(c)
            st.extend(s for s in succ[c] if s not in seen and s not in avoid)
        return seen

    def may_follow(self, a, b, normal=True):
        """some path from instruction a reaches instruction b (after a)"""
        if a.bb == b.bb and a.pos < b.pos:
            return True
        return b.bb in self.reachable_from(a.bb, self.nsucc if normal else self.succ)

    def in_loop(self, x):
        return x.bb in self.reachable_from(x.bb, self.nsucc)

    # ---- expressions
    def e(self, v):
        """symbolic expression of operand v"""
        if isinstance(v, dict):
            return const_expr(v)
        if v in self._expr:
            r = self._expr[v]
            return r if r is not None else ('rec', v)
        self._expr[v] = None
        r = self._mk(v)
        self._expr[v] = r
        return r

    def _mk(self, v):
        if v < self.nargs:
            return ('arg', v)
        x = self.ins[v]
        op = x.op
        if op in ('zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            return self.e(x.ops[0])
        if op == 'trunc':
            inner = self.e(x.ops[0])
            if x.raw['t'] == 'i1':
                return inner
            if inner[0] in ('c',) or x.raw['t'] == 'i32':      # wrap-around of 32-bit page numbers is not modelled
                return inner
            return ('trunc', x.raw['t'], inner) if inner[0] not in ('trunc',) else inner
        if op == 'alloca':
            return ('alloca', v)
        if op == 'load':
            a = self.e(x.ops[0])
            if a[0] == 'addr_of':
                return a[1]
            if a[0] == 'g':
                c = self.prog.const_global(a[1])
                if c is not None:
                    return c
            if a[0] == 'alloca':
                r = self.reach_alloca(x, a[1])
                if r is not None:
                    return r
            if a[0] != 'alloca' and self.outdated(x):
                return ('res', v)
            return ('ld', a)
        if op == 'getelementptr':
            return self._gep(x)
        if op in ('add', 'sub', 'mul', 'shl'):
            return self._lin(x)
        if op == 'icmp':
            return mk_cmp(x.raw['p'], self.e(x.ops[0]), self.e(x.ops[1]))
        if op == 'fcmp':
            return ('cmp', x.raw['p'], self.e(x.ops[0]), self.e(x.ops[1]))
        if op == 'select':
            return ('sel', self.e(x.ops[0]), self.e(x.ops[1]), self.e(x.ops[2]))
        if op == 'phi':
            vals = {repr(a[1]) for a in x.raw['in']}
            if len(vals) == 1 and isinstance(x.raw['in'][0][1], dict):
                return self.e(x.raw['in'][0][1])
            return ('phi', v)
        if op == 'xor':
            a, b = self.e(x.ops[0]), self.e(x.ops[1])
            if x.raw['t'] == 'i1' and b == ('c', 1):
                return neg(a)
            return ('op', 'xor', a, b)
        if op in ('and', 'or', 'udiv', 'sdiv', 'urem', 'srem', 'lshr', 'ashr'):
            a, b = self.e(x.ops[0]), self.e(x.ops[1])
            if op in ('lshr', 'ashr') and b[0] == 'c':
                return ('op', 'udiv', a, ('c', 1 << b[1]))
            return ('op', op, a, b)
        if op == 'extractvalue':
            return ('ev', self.e(x.ops[0]), tuple(x.raw['ix']))
        if op in ('call', 'invoke'):
            return self._call(x)
        return ('res', v)

    def rawkey(self, v, d=0):
        """address of an operand as a chain of field accesses, without evaluating expressions"""
        if not isinstance(v, int):
            return repr(v)
        if v < self.nargs or d > 12:
            return v
        x = self.ins[v]
        if x.op == 'load':
            return ('l', self.rawkey(x.ops[0], d + 1))
        if x.op == 'bitcast':
            return self.rawkey(x.ops[0], d + 1)
        if x.op == 'getelementptr':
            return ('p', repr(x.raw.get('p')), repr(x.raw.get('off'))) + tuple(self.rawkey(o, d + 1) for o in x.ops)
        return v

    def outdated(self, x):
        """is the loaded value used after the same variable has been assigned again"""
        if self._stored is None:
            self._stored = {}
            for y in self.all():
                if y.op == 'store' and isinstance(y.ops[1], int):
                    self._stored.setdefault(self.rawkey(y.ops[1]), []).append(y)
        if not isinstance(x.ops[0], int):
            return False
        st = self._stored.get(self.rawkey(x.ops[0]))
        if not st:
            return False
        uses, seen, work = [], set(), [x]
        while work:
            y = work.pop()
            for u in self.users[y.id]:
                if u in seen:
                    continue
                seen.add(u)
                if u.op in PURE:
                    work.append(u)
                elif u.is_call and (self.prog.callee_name(u) or '') in ('std::min', 'std::max') or u.is_call and (u.raw.get('f') or '').startswith('__sa_m'):
                    uses.append(u)
                    work.append(u)
                elif u.op == 'load':
                    uses.append(u)
                    work.append(u)
                elif u.op == 'store' and u.ops[0] == y.id and isinstance(u.ops[1], int) and u.ops[1] >= self.nargs and self.ins[u.ops[1]].op == 'alloca':
                    uses.append(u)
                    work.append(self.ins[u.ops[1]])
                elif u.op == 'phi':
                    uses += [self.blocks[p][-1] for p, v in u.raw['in'] if v == y.id]
                else:
                    uses.append(u)
        uses = set(uses)
        return any(self.path_avoiding(s, lambda y: y in uses, lambda y: y is x) for s in st if self.may_follow(x, s, False))

    def reach_alloca(self, ld, aid):
        """value of a local whose address is taken, when one store reaches the load; None otherwise"""
        al = self.ins.get(aid)
        if al is None or not re.match(r'^(i\d+|ptr)$', al.raw.get('at', '')):
            return None
        if aid not in self._allocas:
            defs = []
            ok = True
            for u in self.users[aid]:
                if u.op == 'store':
                    if u.ops[1] == aid and u.ops[0] != aid:
                        defs.append(u)
                    else:
                        ok = False
                elif u.op == 'load':
                    pass
                elif u.is_call:
                    q = self.prog.callee_name(u) or ''
                    if q in ('std::min', 'std::max') or q.startswith('llvm.') or self.prog.const_param(u, aid):
                        pass
                    else:
                        defs.append(u)
                elif u.op in ('icmp',):
                    pass
                elif u.op in ('phi', 'select'):   # min/max style selection of references: reads only
                    defs.append(None)
                else:
                    ok = False
            self._allocas[aid] = (ok, defs)
        ok, defs = self._allocas[aid]
        if not ok or None in defs:
            return None
        return self._reach(ld, aid, defs)

    def _reach(self, ld, aid, defs):
        bydef = defaultdict(list)
        for d in defs:
            bydef[d.bb].append(d)
        found = set()
        seen = set()
        st = [(ld.bb, ld.pos)]
        first = True
        while st:
            b, p = st.pop()
            cand = [d for d in bydef.get(b, ()) if d.pos < p]
            if cand:
                found.add(max(cand, key=lambda d: d.pos))
                if len(found) > 1:
                    return None
                continue
            if b == 0:
                return None
            for q in self.pred[b]:
                if q not in seen:
                    seen.add(q)
                    st.append((q, 1 << 30))
        if len(found) != 1:
            return None
        d = next(iter(found))
        if d.op != 'store':
            return None
        return self.e(d.ops[0])

    def _gep(self, x):
        base = self.e(x.ops[0])
        r = base
        ops = x.ops
        first = True
        for st in x.raw['p']:
            if st[0] is None:
                k = st[1]
                idx = self.e(ops[k + 1])
                if idx == ('c', 0) and k > 0:
                    r = ('elt', r, idx, 0) if False else r
                    continue
                esz = x.raw['esz'] if k == 0 else 0
                r = ('elt', r, idx, esz)
            else:
                r = ('fld', r, st[0], st[1])
        return r

    def _lin(self, x):
        a, b = self.e(x.ops[0]), self.e(x.ops[1])
        la, lb = lin_of(a), lin_of(b)
        if x.op == 'add':
            return lin_make(lin_add(la, lb, 1))
        if x.op == 'sub':
            return lin_make(lin_add(la, lb, -1))
        if x.op == 'mul':
            if b[0] == 'c':
                return lin_make(lin_scale(la, b[1]))
            if a[0] == 'c':
                return lin_make(lin_scale(lb, a[1]))
            p, q = sorted((a, b), key=repr)
            return ('op', 'mul', p, q)
        if x.op == 'shl' and b[0] == 'c':
            return lin_make(lin_scale(la, 1 << b[1]))
        return ('op', x.op, a, b)

    def _call(self, x):
        if x.callee and x.callee.startswith('__sa_m'):
            a, b = sorted((self.e(o) for o in x.ops), key=repr)
            return (x.callee[5:8], a, b) if a != b else a
        q = self.prog.callee_name(x)
        if q is None:
            tg = self.prog.targets(x)
            if tg and len(tg) == 1:
                f = self.prog.functions.get(next(iter(tg)))
                if f is not None:
                    g = self.prog.getter(f)
                    if g is not None:
                        return subst(g, [self.e(a) for a in x.ops])
            return ('res', x.id)
        for rx, kind in _RX:
            if rx.match(q):
                a = [self.e(o) for o in x.ops]
                if kind == 'size':
                    return ('size', a[0])
                if kind == 'data':
                    return ('data', a[0])
                if kind == 'cstr':
                    return ('data', a[0])
                if kind == 'elem':
                    return ('elt', ('data', a[0]), a[1], -1)
                if kind == 'sget':
                    return ('ld', a[0])
                if kind == 'sbool':
                    return mk_cmp('ne', ('ld', a[0]), ('null',))
                if kind in ('min', 'max') and len(a) == 2:
                    return ('addr_of', (kind, ('ld', a[0]), ('ld', a[1])))
                if kind == 'ident':
                    return a[0]
        f = self.prog.functions.get(x.callee)
        if f is not None and not (f.virt and False):
            g = self.prog.getter(f)
            if g is not None:
                return subst(g, [self.e(a) for a in x.ops])
        return ('res', x.id)

    # ---- branch facts that hold at a block (edge dominance)
    def guards(self, bb):
        """list of (cond_expr, truth, branch Instr) that hold whenever block bb is entered"""
        if bb in self._guards:
            return self._guards[bb]
        out = []
        d = self.dom
        for p in range(len(self.blocks)):
            if not (d[bb] >> p & 1) or p not in self.reach:
                continue
            t = self.blocks[p][-1]
            if t.op == 'br' and len(t.raw['s']) == 2:
                a, b = t.raw['s']
                if a == b:
                    continue
                c = None
                for s, tr in ((a, True), (b, False)):
                    if self._edge_dominates(p, s, bb):
                        c = self.e(t.ops[0])
                        for cc, tt in self.decomp(t.ops[0], tr):
                            out.append((cc, tt, t))
            elif t.op == 'switch':
                c = self.e(t.ops[0])
                by = defaultdict(list)
                for v, s in t.raw['cases']:
                    by[s].append(v)
                for s in set(by) | {t.raw['def']}:
                    if self._edge_dominates(p, s, bb):
                        out += [(cc, tt, t) for cc, tt in self.came_by(t, s)]
                for s, vs in by.items():
                    if s != t.raw['def'] and self._edge_dominates(p, s, bb):
                        if len(vs) == 1:
                            out.append((mk_cmp('eq', c, ('c', vs[0])), True, t))
                        else:
                            out.append((('in', c, tuple(sorted(vs))), True, t))
                if t.raw['def'] not in by and self._edge_dominates(p, t.raw['def'], bb):
                    for v, s in t.raw['cases']:
                        out.append((mk_cmp('eq', c, ('c', v)), False, t))
        self._guards[bb] = out
        return out

    def came_by(self, t, s):
        """what holds when a switch over a merge of constants (the way a scope was left) goes to s: the conditions
        of the only way that brings such a value"""
        v = t.ops[0]
        x = self.ins.get(v) if isinstance(v, int) and v >= self.nargs else None
        if x is None or x.op != 'phi':
            return []
        live = [pb for pb, pv in x.raw['in'] if not (isinstance(pv, dict) and pv.get('k') == 'i') or switch_target(t, pv['v']) == s]
        if len(live) != 1 or live[0] in self._came:
            return []
        self._came.add(live[0])
        try:
            return [(c, tr) for c, tr, _ in self.guards(live[0])]
        finally:
            self._came.discard(live[0])

    @property
    def ways(self):
        """for merges of constants that a switch decides on: block -> {predecessor: (phi, constant)}, and block of the switch -> phi"""
        if self._ways is None:
            into, tests = {}, {}
            for b, blk in enumerate(self.blocks):
                t = blk[-1] if blk else None
                if t is None or t.op != 'switch':
                    continue
                v = t.ops[0]
                x = self.ins.get(v) if isinstance(v, int) and v >= self.nargs else None
                if x is not None and x.op == 'phi':
                    tests[b] = x.id
                    into.setdefault(x.bb, []).append((x.id, {pb: pv['v'] if isinstance(pv, dict) and pv.get('k') == 'i' else None for pb, pv in x.raw['in']}))
            self._ways = into, tests
        return self._ways

    def step_way(self, env, b, s):
        """env after the edge b -> s: what is known of the merges of constants; None if the edge cannot be taken"""
        into, tests = self.ways
        if b in tests:
            v = dict(env).get(tests[b])
            if v is not None:
                if switch_target(self.blocks[b][-1], v) != s:
                    return None
                env = tuple(kv for kv in env if kv[0] != tests[b])
        if s in into:
            d = dict(env)
            for ph, vals in into[s]:
                v = vals.get(b)
                if v is None:
                    d.pop(ph, None)
                else:
                    d[ph] = v
            env = tuple(sorted(d.items()))
        return env

    def decomp(self, v, truth, depth=0):
        """facts implied by value v (i1) being `truth`, including short-circuit phis"""
        out = [(self.e(v), truth)]
        if isinstance(v, int) and v >= self.nargs and depth < 6:
            x = self.ins[v]
            if x.op == 'phi':
                # a && b : phi [false, A], [b, B] ; true => b true (and a true through dominance of B)
                live = []
                for pb, pv in x.raw['in']:
                    if isinstance(pv, dict) and pv.get('k') == 'i':
                        if bool(pv['v']) == truth:
                            live.append((pb, pv))
                    else:
                        live.append((pb, pv))
                if len(live) == 1:
                    pb, pv = live[0]
                    if not isinstance(pv, dict):
                        out += self.decomp(pv, truth, depth + 1)
                    out += [(c, t) for c, t, _ in self.guards(pb)]
            elif x.op == 'xor' and x.ops[1] == {'k': 'i', 'v': 1, 'w': 1}:
                out += self.decomp(x.ops[0], not truth, depth + 1)
            elif x.op in ('trunc', 'zext', 'freeze'):
                out += self.decomp(x.ops[0], truth, depth + 1)
            elif x.op == 'icmp' and x.raw['p'] in ('ne', 'eq') and isinstance(x.ops[1], dict) and x.ops[1].get('v') == 0:
                out += self.decomp(x.ops[0], truth == (x.raw['p'] == 'ne'), depth + 1)
            elif x.op == 'and' and truth:
                out += self.decomp(x.ops[0], True, depth + 1) + self.decomp(x.ops[1], True, depth + 1)
            elif x.op == 'or' and not truth:
                out += self.decomp(x.ops[0], False, depth + 1) + self.decomp(x.ops[1], False, depth + 1)
        return out

    def _edge_dominates(self, p, s, bb):
        """edge p->s dominates block bb"""
        if not (self.dom[bb] >> s & 1):
            return False
        for q in self.pred[s]:
            if q == p:
                if self.succ[p].count(s) > 1:
                    return False
                continue
            if q not in self.reach:
                continue
            if not (self.dom[q] >> s & 1):
                return False
        return True

    def facts(self, x):
        return [(c, t) for c, t, _ in self.guards(x.bb)]

    # ---- path queries
    def path_avoiding(self, start, goal, stop, normal=True, skip=None):
        """a list of blocks of a path from just after `start` (Instr or None for entry) to an instruction
        satisfying goal, on which no instruction satisfies stop; None if there is none.
        skip(bb, succ) may veto an edge."""
        succ = self.nsucc if normal else self.succ
        if start is None:
            b0, p0 = 0, 0
        else:
            b0, p0 = start.bb, start.pos + 1

        def scan(b, p):
            for x in self.blocks[b][p:]:
                if goal(x):
                    return 'goal', x
                if stop(x):
                    return 'stop', x
            return 'through', None
        r, x = scan(b0, p0)
        if r == 'goal':
            return [x]
        if r == 'stop':
            return None
        seen = set()
        st = [(s, (b0,), self.step_way((), b0, s)) for s in succ[b0] if not (skip and skip(b0, s))]
        while st:
            b, path, env = st.pop()
            if (b, env) in seen:
                continue
            seen.add((b, env))
            r, x = scan(b, 0)
            if r == 'goal':
                return [self.blocks[i][-1] for i in path] + [x]
            if r == 'stop':
                continue
            for s in succ[b]:
                if not (skip and skip(b, s)):
                    e = self.step_way(env, b, s)
                    if e is not None and (s, e) not in seen:
                        st.append((s, path + (b,), e))
        return None


def switch_target(t, v):
    return next((d for c, d in t.raw['cases'] if c == v), t.raw['def'])


# ---------------------------------------------------------------- expression helpers
def const_expr(d):
    k = d.get('k')
    if k == 'i':
        return ('c', d['v'])
    if k == 'null':
        return ('null',)
    if k in ('s', 's16', 's32'):
        return ('s', d['v'])
    if k == 'fn':
        return ('fn', d['n'])
    if k == 'g':
        return ('g', d['n'])
    if k == 'ce':
        if d['op'] == 'getelementptr' and 'off' in d:
            return ('gofs', const_expr(d['ops'][0]), d['off'])
        return ('ce', d['op']) + tuple(const_expr(o) for o in d['ops'])
    if k == 'undef':
        return ('undef',)
    return ('k', k)


PREDNEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
PREDSWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}


def mk_cmp(p, a, b):
    if p in ('eq', 'ne') and repr(a) > repr(b):
        a, b = b, a
    # (bool) != 0
    if p in ('ne', 'eq') and b == ('c', 0) and a[0] in ('cmp', 'not', 'in'):
        return a if p == 'ne' else neg(a)
    if p in ('ne', 'eq') and a == ('c', 0) and b[0] in ('cmp', 'not', 'in'):
        return b if p == 'ne' else neg(b)
    return ('cmp', p, a, b)


def neg(c):
    if c[0] == 'cmp' and c[1] in PREDNEG:
        return ('cmp', PREDNEG[c[1]], c[2], c[3])
    if c[0] == 'not':
        return c[1]
    return ('not', c)


def truth(c, t):
    """normalised condition: cmp with the truth folded in"""
    return c if t else neg(c)


def lin_of(e):
    if e[0] == 'c':
        return (e[1], {})
    if e[0] == 'lin':
        return (e[1], dict(e[2]))
    return (0, {e: 1})


def lin_add(a, b, s):
    k = a[0] + s * b[0]
    d = dict(a[1])
    for t, c in b[1].items():
        d[t] = d.get(t, 0) + s * c
        if d[t] == 0:
            del d[t]
    return (k, d)


def lin_scale(a, s):
    if s == 0:
        return (0, {})
    return (a[0] * s, {t: c * s for t, c in a[1].items()})


def lin_make(l):
    k, d = l
    if not d:
        return ('c', k)
    if k == 0 and len(d) == 1:
        (t, c), = d.items()
        if c == 1:
            return t
    return ('lin', k, tuple(sorted(d.items(), key=lambda z: repr(z[0]))))


def subst(e, args):
    if not isinstance(e, tuple):
        return e
    if e and e[0] == 'arg':
        return args[e[1]] if e[1] < len(args) else e
    if e and e[0] == 'lin':
        acc = (e[1], {})
        for t, c in e[2]:
            acc = lin_add(acc, lin_scale(lin_of(subst(t, args)), c), 1)
        return lin_make(acc)
    r = tuple(subst(x, args) for x in e)
    if r and r[0] == 'cmp':
        return mk_cmp(r[1], r[2], r[3])
    if r and r[0] == 'ld' and r[1][0] == 'addr_of':
        return r[1][1]
    return r


def walk(e):
    """all sub-expressions"""
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(y for y in x if isinstance(y, tuple))


def mentions_field(e, struct, field):
    return any(s[0] == 'fld' and s[2] == struct and s[3] == field for s in walk(e))


def is_field_load(e, struct, field):
    return e[0] == 'ld' and e[1][0] == 'fld' and e[1][2] == struct and e[1][3] == field


def show(e, fn=None):
    if not isinstance(e, tuple) or not e:
        return str(e)
    k = e[0]
    if k == 'c':
        return str(e[1])
    if k == 'arg':
        return fn.argname(e[1]) if fn else 'arg%d' % e[1]
    if k == 'null':
        return 'nullptr'
    if k == 's':
        return '"%s"' % e[1]
    if k == 'ld':
        a = e[1]
        if a[0] == 'fld':
            return '%s.%s' % (show(a[1], fn), a[3])
        if a[0] == 'elt':
            return '%s[%s]' % (show(a[1], fn), show(a[2], fn))
        return '*%s' % show(a, fn)
    if k == 'fld':
        return '&%s.%s' % (show(e[1], fn), e[3])
    if k == 'elt':
        return '&%s[%s]' % (show(e[1], fn), show(e[2], fn))
    if k == 'size':
        return '%s.size()' % show(e[1], fn)
    if k == 'data':
        return show(e[1], fn)
    if k == 'cmp':
        return '(%s %s %s)' % (show(e[2], fn), e[1], show(e[3], fn))
    if k == 'not':
        return '!' + show(e[1], fn)
    if k == 'lin':
        return '(' + ' + '.join([('%d*' % c if c != 1 else '') + show(t, fn) for t, c in e[2]] + ([str(e[1])] if e[1] else [])) + ')'
    if k in ('res', 'phi', 'alloca', 'rec'):
        if fn and e[1] in fn.vnames:
            return fn.vnames[e[1]]
        if fn and k == 'res':
            x = fn.ins[e[1]]
            q = fn.prog.callee_name(x) if x.is_call else None
            return (q or x.op) + '(..)'
        return '%s%d' % (k, e[1])
    if k == 'op':
        return '(%s %s %s)' % (show(e[2], fn), e[1], show(e[3], fn))
    return '%s(%s)' % (k, ', '.join(show(x, fn) for x in e[1:]))


# ---------------------------------------------------------------- program
class Program:
    def __init__(self, m):
        self.m = m
        self.decls = m['decls']
        self.records = m['records']
        self.enums = m['enums']
        self.globals = m['globals']
        self.inlined = m['inlined']
        self.algos = m.get('algos', {})      # searches of the standard library -> the lambdas they call
        self._nr = {}
        self.functions = {}
        for n, r in m['functions'].items():
            self.functions[n] = None
        for r in list(m['functions'].values()) + list(m['decls'].values()):
            r['q'] = r['q'].replace('[abi:cxx11]', '')
        self._qn = {n: r['q'] for n, r in m['functions'].items()}
        self._qn.update({n: r['q'] for n, r in m['decls'].items()})
        self._dn = {n: r['d'] for n, r in m['functions'].items()}
        self._dn.update({n: r['d'] for n, r in m['decls'].items()})
        for n, r in m['functions'].items():
            self.functions[n] = Fn(self, n, r)
        self.by_q = defaultdict(list)
        for f in self.functions.values():
            self.by_q[f.q].append(f)
        # vtables: type id -> list of {slot offset: fn}
        self.vt = defaultdict(list)
        for v in m['vtables']:
            slots = {o: n for o, n in v['slots']}
            for off, tid in v['types']:
                self.vt[tid].append((v['n'], {o - off: n for o, n in slots.items() if o >= off}))
        self._getter = {}
        self._targets = {}
        self._callers = None

    def is_noreturn(self, name):
        if name is None:
            return False
        if name in ('__cxa_throw', '__cxa_rethrow', '_ZSt9terminatev', 'abort', 'exit', '__clang_call_terminate'):
            return True
        d = self.m['decls'].get(name)
        return bool(d and d.get('noret'))

    def qname(self, n):
        return self._qn.get(n, n)

    def dname(self, n):
        return self._dn.get(n, n)

    def callee_name(self, x):
        n = x.raw.get('f')
        return self._qn.get(n, n) if n else None

    def targets(self, x):
        """set of mangled names a call may reach (direct, or virtual by class hierarchy); empty if unknown"""
        k = (x.fn.name, x.id)
        if k in self._targets:
            return self._targets[k]
        r = set()
        n = x.raw.get('f')
        if n:
            r = {n} | set(self.algos.get(n, ()))
        elif isinstance(x.raw.get('fv'), int):
            f = x.fn
            fv = x.raw['fv']
            ld = f.ins.get(fv)
            if ld is not None and ld.op == 'load' and isinstance(ld.ops[0], int) and ld.ops[0] >= f.nargs:
                g = f.ins[ld.ops[0]]
                if g.op == 'getelementptr' and isinstance(g.ops[0], int):
                    off = g.raw.get('off')
                    vtp = g.ops[0]
                elif g.op == 'load':
                    off, vtp = 0, g.id
                else:
                    off = vtp = None
                if vtp is not None:
                    for u in f.users[vtp]:
                        if 'tid' in u.raw:
                            for _, sl in self.vt.get(u.raw['tid'], ()):
                                if off in sl:
                                    r.add(sl[off])
                            break
        self._targets[k] = r
        return r

    def target_qs(self, x):
        return {self.qname(n) for n in self.targets(x)}

    def target_fns(self, x):
        return [self.functions[n] for n in self.targets(x) if self.functions.get(n) is not None]

    def getter(self, f):
        """expression of a small side-effect free function in terms of its arguments, or None"""
        if f.name in self._getter:
            return self._getter[f.name]
        self._getter[f.name] = None
        r = None
        if len(f.blocks) == 1 and len(f.blocks[0]) < 25:
            ok = True
            for x in f.blocks[0]:
                if x.op in ('store',):
                    ok = False
                if x.is_call and f._call(x)[0] == 'res' and x.callee not in ('llvm.assume', 'llvm.type.test', 'llvm.public.type.test'):
                    ok = False
                if x.op == 'alloca':
                    ok = False
            t = f.blocks[0][-1]
            if ok and t.op == 'ret' and t.ops:
                r = f.e(t.ops[0])
                if any(s[0] in ('res', 'alloca', 'phi', 'rec') for s in walk(r)):
                    r = None
        self._getter[f.name] = r
        return r

    def const_global(self, n):
        g = self.globals.get(n)
        if g and g.get('const') and 'init' in g:
            i = g['init']
            if i.get('k') == 'i':
                return ('c', i['v'])
        return None

    def const_param(self, call, aid):
        """the callee takes this argument by reference/pointer to const"""
        f = self.functions.get(call.callee)
        if f is None:
            d = self.dname(call.callee or '')
            # library templates taking const T& (vector::push_back(T const&), resize(n, T const&), ...)
            m = re.search(r'\((.*)\)', d)
            return False
        dt = f.raw.get('dt') or []
        for i, a in enumerate(call.ops):
            if a == aid:
                t = dt[i + 1] if i + 1 < len(dt) else ''
                if not t.startswith('const '):
                    return False
        return True

    def fns(self, q):
        return self.by_q.get(q, [])

    def fn1(self, q, pred=None):
        l = [f for f in self.by_q.get(q, []) if pred is None or pred(f)]
        return l[0] if len(l) >= 1 else None

    @property
    def callers(self):
        if self._callers is None:
            c = defaultdict(list)
            for f in self.functions.values():
                for x in f.calls():
                    for t in self.targets(x):
                        c[t].append(x)
            self._callers = c
        return self._callers

    def calls_to(self, q):
        """all call instructions (in project code) whose possible targets include a function with qualified name q"""
        rx = q if hasattr(q, 'match') else None
        out = []
        for n, xs in self.callers.items():
            qq = self.qname(n)
            if (rx.match(qq) if rx else qq == q):
                out += xs
        return out

    def reach_closure(self, start):
        """functions reachable in the call graph from the given mangled names"""
        seen = set(start)
        st = list(start)
        while st:
            f = self.functions.get(st.pop())
            if f is None:
                continue
            for x in f.calls():
                for t in self.targets(x):
                    if t not in seen:
                        seen.add(t)
                        st.append(t)
        return seen

    # ---- interprocedural "always does" summaries
    def always(self, pred, limit=50):
        """set of mangled function names all of whose normal-return paths execute an instruction
        satisfying pred, or call a function in the set (functions without a normal return qualify trivially
        only if they never return)"""
        good = set()
        ch = True
        n = 0
        while ch and n < limit:
            ch = False
            n += 1
            for f in self.functions.values():
                if f.name in good:
                    continue
                p = f.path_avoiding(None, lambda x: x.op == 'ret', lambda x: pred(x) or self.does(x, good))
                if p is None and f.rets():
                    good.add(f.name)
                    ch = True
        return good

    def does(self, x, good):
        if not x.is_call:
            return False
        t = self.targets(x)
        return bool(t) and all(n in good for n in t)

    def may(self, pred):
        """set of mangled function names that may (transitively) execute an instruction satisfying pred"""
        base = set()
        for f in self.functions.values():
            if any(pred(x) for x in f.all()):
                base.add(f.name)
        st = list(base)
        while st:
            n = st.pop()
            for x in self.callers.get(n, ()):
                if x.fn.name not in base:
                    base.add(x.fn.name)
                    st.append(x.fn.name)
        return base
