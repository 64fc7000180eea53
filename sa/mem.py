"""Value propagation with a provenance domain: what a result is made of, whatever way it is computed.

Values are integers, linear sums over named digits (('lin', ((digit, factor), ...), constant)), bit patterns (('b', bits): each bit
0, 1 or (digit, k)), pointers and positions in collections, or unknown (None).  A named digit stands for every value of its range;
conditions are decided from the ranges, otherwise both branches are followed.  Memory is a map from places to values; strings,
vectors, arrays and maps of the standard library are modelled by what their operations do to their elements.
Nothing is executed, no path condition is solved."""
import re
import sys
from .absint import arith, icmp, width, uns, sgn
from .build import Broken

DIGITS = {}
DEBUG = False
MISSED = []      # library functions met that have no model


def callee_harmless(q, callee):
    return not q or 'exception' in q or '_error' in q or (callee or '').startswith(('llvm.', '__cxa_'))


def q_of(x, meth):
    return '%s (%s)' % (meth, (x.callee or '')[:60])


class Stop(Exception):
    pass


def lin(terms, c):
    t = tuple(sorted((s, k) for s, k in terms.items() if k))
    return ('lin', t, c) if t else c


def rng(v, R):
    if isinstance(v, int):
        return v, v
    if isinstance(v, tuple) and v[0] == 'lin':
        lo = hi = v[2]
        for s, k in v[1]:
            a, b = R[s]
            lo += min(a * k, b * k)
            hi += max(a * k, b * k)
        return lo, hi
    return None


def islin(v):
    return isinstance(v, int) or isinstance(v, tuple) and v[0] == 'lin'


class Mem:
    def __init__(self, P, R, extra=None, limit=40000):
        self.P = P
        self.R = R                # digit -> (lo, hi)
        self.extra = extra
        self.limit = limit
        self.steps = 0
        self.reads = set()
        self.writes = set()
        self.lost = []

    # ---- values
    def bits(self, v, w):
        if isinstance(v, int):
            return [(v >> i) & 1 for i in range(w)]
        if isinstance(v, tuple) and v[0] == 'b':
            b = list(v[1])
            return (b + [0] * w)[:w]
        if isinstance(v, tuple) and v[0] == 'lin' and len(v[1]) == 1 and v[1][0][1] == 1 and v[2] == 0:
            s = v[1][0][0]
            if 0 <= self.R[s][0] and self.R[s][1] < 16:
                return ([(s, i) for i in range(4)] + [0] * w)[:w]
        return None

    def frombits(self, b):
        if b is None or None in b:
            return None
        if all(x in (0, 1) for x in b):
            return sum(x << i for i, x in enumerate(b))
        if isinstance(b[0], tuple) and len(b) >= 4:
            s = b[0][0]
            if list(b[:4]) == [(s, i) for i in range(4)] and not any(b[4:]):
                return ('lin', ((s, 1),), 0)
        n = list(b)
        while n and n[-1] == 0:
            n.pop()
        return ('b', tuple(n))

    def aslin(self, v):
        if islin(v):
            return v
        if isinstance(v, tuple) and v[0] == 'b':      # whole digits shifted to places
            t, c = {}, 0
            b = v[1]
            i = 0
            while i < len(b):
                x = b[i]
                if x in (0, 1):
                    c += x << i
                    i += 1
                elif x is not None and x[1] == 0 and list(b[i:i + 4]) == [(x[0], k) for k in range(4)]:
                    t[x[0]] = t.get(x[0], 0) + (1 << i)
                    i += 4
                else:
                    return None
            return lin(t, c)
        return None

    def arith(self, op, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return arith(op, a, b, w)
        if a is None or b is None:
            if op in ('and', 'mul') and 0 in (a, b):
                return 0
            return None
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'urem', 'udiv', 'srem', 'sdiv'):
            A = self.bits(a, w)
            if op in ('and', 'or', 'xor'):
                B = self.bits(b, w)
                if A is None or B is None:
                    return None
                f = {'and': lambda p, q: q if p == 1 else p if q == 1 else 0 if 0 in (p, q) else p if p == q else None,
                     'or': lambda p, q: q if p == 0 else p if q == 0 else 1 if 1 in (p, q) else p if p == q else None,
                     'xor': lambda p, q: q if p == 0 else p if q == 0 else 0 if p == q else None}[op]
                return self.frombits([f(p, q) for p, q in zip(A, B)])
            if A is None or not isinstance(b, int):
                return None
            if op in ('urem', 'udiv', 'srem', 'sdiv'):
                if b <= 0 or b & (b - 1) or A[-1] != 0:
                    return None
                n = b.bit_length() - 1
                return self.frombits(A[:n] + [0] * (w - n) if op in ('urem', 'srem') else A[n:] + [0] * n)
            if b >= w:
                return None
            if op == 'shl':
                return self.frombits(([0] * b + A)[:w])
            return self.frombits(A[b:] + [0 if op == 'lshr' else A[-1]] * b)
        a, b = self.aslin(a), self.aslin(b)
        if not islin(a) or not islin(b):
            return None
        if op == 'mul':
            if isinstance(a, int):
                a, b = b, a
            if not isinstance(b, int):
                return None
            b = sgn(b, w)
            return lin({s: k * b for s, k in a[1]}, a[2] * b)
        sg = 1 if op == 'add' else -1
        if op not in ('add', 'sub'):
            return None
        t, c = {}, 0
        for v, g in ((a, 1), (b, sg)):
            if isinstance(v, int):
                c += g * sgn(v, w)
            else:
                c += g * v[2]
                for s, k in v[1]:
                    t[s] = t.get(s, 0) + g * k
        r = lin(t, c)
        return uns(r, w) if isinstance(r, int) else r

    def cmp(self, p, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            return int(icmp(p, a, b, w))
        if a is None or b is None:
            return None
        if isinstance(a, tuple) and a[0] == 'el' and isinstance(b, tuple) and b[0] == 'el' and a[1:3] == b[1:3]:
            return int(icmp(p, a[3], b[3], 64))
        if isinstance(a, tuple) and a[0] == 'p' and isinstance(b, tuple) and b[0] == 'p' and a[1] == b[1]:
            return int(icmp(p, a[2], b[2], 64))
        if isinstance(a, tuple) and a[0] == 'p' and isinstance(b, tuple) and b[0] == 'p' and a[1] != b[1] and p in ('eq', 'ne'):
            return int(p == 'ne')          # places in different objects
        if isinstance(a, tuple) and a[0] in ('p', 'el', 'fn', 'sel') and b == 0 or isinstance(b, tuple) and b[0] in ('p', 'el', 'fn') and a == 0:
            return int(p == 'ne') if p in ('eq', 'ne') else None
        if isinstance(a, tuple) and a[0] == 'sel' and isinstance(b, tuple) and b[0] == 'tid':
            return int((a[1] == b[1] or b[1] in self.bases(a[1])) == (p == 'eq'))
        la, lb = self.aslin(a), self.aslin(b)
        if not islin(la) or not islin(lb):
            return None
        if la == lb:
            return int(p in ('eq', 'uge', 'ule', 'sge', 'sle'))
        ra, rb = rng(sgn(la, w) if isinstance(la, int) else la, self.R), rng(sgn(lb, w) if isinstance(lb, int) else lb, self.R)
        if p[0] == 'u':
            if ra[1] < 0:
                ra = (ra[0] + (1 << w), ra[1] + (1 << w))
            if rb[1] < 0:
                rb = (rb[0] + (1 << w), rb[1] + (1 << w))
            if ra[0] < 0 or rb[0] < 0:
                return None
        if p in ('eq', 'ne'):
            if ra[1] < rb[0] or rb[1] < ra[0]:
                return int(p == 'ne')
            return None
        k = p[1:]
        if k in ('gt', 'ge'):
            ra, rb, k = rb, ra, {'gt': 'lt', 'ge': 'le'}[k]
        if k == 'lt':
            return 1 if ra[1] < rb[0] else 0 if ra[0] >= rb[1] else None
        return 1 if ra[1] <= rb[0] else 0 if ra[0] > rb[1] else None

    def bases(self, ti):
        out = set()
        m = re.match(r'_ZTI(\d+)(\w+)$', ti)
        work = [m.group(2)] if m else []
        while work:
            r = self.P.records.get(work.pop())
            for f in (r or {}).get('f', ()):
                if f['n'].startswith('<'):
                    t = f['n'].strip('<>')
                    n = '_ZTI%d%s' % (len(t), t)
                    if n not in out:
                        out.add(n)
                        work.append(t)
        return out

    # ---- running a function
    def run(self, fn, args, mem, depth=0):
        """-> set of (kind, value, memory) with kind 'ret' or 'exc'"""
        if depth > 8:
            raise Broken('values of %s: calls nest too deeply' % fn.q)
        exits = set()
        work = [(0, 0, dict(enumerate(args)), dict(mem))]
        seen = set()
        while work:
            b, k, env, m = work.pop()
            block = fn.blocks[b]
            while k < len(block):
                self.steps += 1
                if self.steps > self.limit:
                    raise Stop()
                x = block[k]
                k += 1
                if x.op == 'phi':
                    continue
                r = self.step(fn, x, env, m, depth)
                if r is None:
                    continue
                if r[0] == 'exit':
                    exits.add((r[1], r[2], frozenset(m.items())))
                elif r[0] == 'go':
                    for s in r[1]:
                        self.edge(fn, b, s, env, m, work, seen)
                elif r[0] == 'fork':
                    for kind, v, m2 in r[1]:
                        e2 = dict(env)
                        m2 = dict(m2)
                        if kind == 'exc':
                            if x.op == 'invoke':
                                self.edge(fn, b, x.raw['u'], e2, m2, work, seen)
                            else:
                                exits.add(('exc', v, frozenset(m2.items())))
                            continue
                        self.set(e2, x.id, v)
                        if x.op == 'invoke':
                            self.edge(fn, b, x.raw['n'], e2, m2, work, seen)
                        else:
                            work.append((b, k, e2, m2))
                break
        return exits

    def edge(self, fn, a, s, env, m, work, seen):
        env = dict(env)
        new = {}
        for x in fn.blocks[s]:
            if x.op != 'phi':
                break
            for pb, v in x.raw['in']:
                if pb == a:
                    new[x.id] = self.val(v, env)
        for k, v in new.items():
            self.set(env, k, v)
        st = (s, frozenset(env.items()), frozenset(m.items()))
        if st in seen:
            return
        seen.add(st)
        work.append((s, 0, env, dict(m)))

    def set(self, env, k, v):
        if v is None:
            env.pop(k, None)
        else:
            env[k] = v

    def val(self, o, env):
        if isinstance(o, dict):
            k = o.get('k')
            if k == 'i':
                return uns(o['v'], o.get('w') or 64)
            if k == 'null':
                return 0
            if k in ('s', 's16', 's32'):
                return ('p', ('s', o['v']), 0)
            if k == 'fn':
                return ('fn', o['n'])
            if k == 'g':
                return ('p', ('g', o['n']), 0)
            if k == 'ce' and o.get('op') == 'getelementptr' and isinstance(o.get('off'), int):
                p = self.val(o['ops'][0], env)
                return self.move(p, o['off']) if isinstance(p, tuple) and p[0] == 'p' else None
            return None
        return env.get(o)

    def opw(self, fn, o):
        if isinstance(o, dict):
            return o.get('w') or 64
        if o < fn.nargs:
            return width(fn.args[o][1])
        return width(fn.ins[o].raw['t'])

    # ---- memory
    def esz(self, name):
        g = self.P.globals.get(name) or {}
        m = re.match(r'\[\d+ x i(\d+)\]', str(g.get('ty', '')))
        return int(m.group(1)) // 8 if m else 1

    def cell(self, m, obj, off):
        if (obj, off) in m:
            return m[(obj, off)]
        if isinstance(obj, tuple) and obj[0] == 's':
            t = obj[1].encode('utf-8') + b'\0'
            return t[off] if isinstance(off, int) and 0 <= off < len(t) else None
        if isinstance(obj, tuple) and obj[0] == 'g':
            g = self.P.globals.get(obj[1]) or {}
            if g.get('const'):
                i = g.get('init')
                if isinstance(i, dict) and i.get('k') == 'bytes':
                    t = i['v'].encode('utf-8')
                    return t[off] if 0 <= off < len(t) else None
                if isinstance(i, dict) and i.get('k') == 'arr':
                    z = self.esz(obj[1])
                    if off % z == 0 and off // z < len(i['e']) and isinstance(i['e'][off // z], int):
                        return uns(i['e'][off // z], 8 * z)
        return None

    def load(self, m, p):
        if not isinstance(p, tuple):
            return None
        if p[0] == 'p':
            if isinstance(p[2], int):
                self.reads.add((p[1], p[2]))
                return self.cell(m, p[1], p[2])
            if isinstance(p[2], tuple) and p[2][0] == 'lin':      # a table at the place of a digit
                (lo, hi) = rng(p[2], self.R)
                if len(p[2][1]) == 1 and hi - lo < 300:
                    s, k = p[2][1][0]
                    a, b = self.R[s]
                    vs = [self.cell(m, p[1], p[2][2] + k * d) for d in range(a, b + 1)]
                    if all(isinstance(v, int) for v in vs):
                        if len(set(vs)) == 1:
                            return vs[0]
                        f = vs[1] - vs[0]
                        if all(v == vs[0] + f * i for i, v in enumerate(vs)):
                            return lin({s: f}, vs[0] - f * a)
            return None
        if p[0] == 'el':
            c = m.get((p[1], p[2]))
            if c is not None and c[0] in ('vec', 'str') and isinstance(p[3], int):
                if 0 <= p[3] < len(c[1]):
                    return c[1][p[3]]
                if c[0] == 'str' and p[3] == len(c[1]):
                    return 0
                self.lost.append('an element behind the end of a collection is used')
            return None
        return None

    def store(self, m, p, v):
        if not isinstance(p, tuple):
            m[('wild', 0)] = 1
            return
        if p[0] == 'p' and isinstance(p[2], int):
            self.writes.add((p[1], p[2]))
            if v is None:
                m.pop((p[1], p[2]), None)
            else:
                m[(p[1], p[2])] = v
        elif p[0] == 'el' and isinstance(p[3], int):
            c = m.get((p[1], p[2]))
            if c is not None and 0 <= p[3] < len(c[1]):
                m[(p[1], p[2])] = (c[0], c[1][:p[3]] + (v,) + c[1][p[3] + 1:])
            else:
                self.lost.append('an element outside of a collection is stored to')
        else:
            m[('wild', 0)] = 1

    def copy(self, m, d, s, n):
        if not (isinstance(n, int) and isinstance(d, tuple) and isinstance(s, tuple)):
            m[('wild', 0)] = 1
            return
        if d[0] == 'p' and s[0] == 'p' and isinstance(d[2], int) and isinstance(s[2], int):
            src = {}
            offs = {o for (ob, o) in m if ob == s[1] and isinstance(o, int) and s[2] <= o < s[2] + n}
            if isinstance(s[1], tuple) and s[1][0] == 'g':
                offs |= set(range(s[2], s[2] + n, self.esz(s[1][1])))
            elif isinstance(s[1], tuple) and s[1][0] == 's':
                offs |= set(range(s[2], s[2] + n))
            for o in offs:
                v = self.cell(m, s[1], o)
                if v is not None:
                    src[o - s[2]] = v
            for i in range(n):
                self.reads.add((s[1], s[2] + i)) if n <= 4096 else None
            for k in [k for k in m if k[0] == d[1] and isinstance(k[1], int) and d[2] <= k[1] < d[2] + n]:
                del m[k]
            for i in range(n if n <= 4096 else 0):
                self.writes.add((d[1], d[2] + i))
            for o, v in src.items():
                m[(d[1], d[2] + o)] = v
            return
        for i in range(n if n <= 64 else 0):       # bytes out of or into a collection
            self.store(m, self.move(d, i), self.load(m, self.move(s, i)))

    @staticmethod
    def move(p, n):
        if not isinstance(p, tuple):
            return None
        if p[0] == 'p' and isinstance(p[2], int) and isinstance(n, int):
            return ('p', p[1], p[2] + n)
        if p[0] == 'p' and isinstance(n, tuple) and n[0] == 'lin' and isinstance(p[2], int):
            return ('p', p[1], ('lin', n[1], n[2] + p[2]))
        if p[0] == 'el' and isinstance(n, int):
            return ('el', p[1], p[2], p[3] + n)
        return None

    # ---- instructions
    def step(self, fn, x, env, m, depth):
        op, raw = x.op, x.raw
        V = lambda i: self.val(x.ops[i], env)
        if op == 'alloca':
            o = ('a', fn.name, x.id, depth)
            for k in [k for k in m if k[0] == o]:
                del m[k]
            env[x.id] = ('p', o, 0)
            return None
        if op == 'getelementptr':
            p = V(0)
            r = None
            if isinstance(p, tuple) and p[0] in ('p', 'el'):
                if 'off' in raw:
                    n = raw['off']
                else:
                    n = self.gepoff(fn, x, env)
                if p[0] == 'el' and isinstance(n, int):
                    z = max(1, raw.get('esz') or 1)
                    n = n // z
                r = self.move(p, n)
            self.set(env, x.id, r)
            return None
        if op == 'load':
            v = self.load(m, V(0))
            t = raw['t']
            if t == 'i8' and isinstance(v, int):
                v = uns(v, 8)
            self.set(env, x.id, v)
            return None
        if op == 'store':
            self.store(m, V(1), V(0))
            return None
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = V(0), V(1)
            if op == 'sub' and isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'el' and a[1:3] == b[1:3]:
                env[x.id] = a[3] - b[3]
                return None
            self.set(env, x.id, self.arith(op, a, b, width(raw['t'])))
            return None
        if op in ('zext', 'trunc', 'sext', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            a = V(0)
            w = width(raw['t'])
            if isinstance(a, int):
                if op == 'trunc':
                    a = uns(a, w)
                elif op == 'sext':
                    a = uns(sgn(a, self.opw(fn, x.ops[0])), w)
            elif isinstance(a, tuple) and a[0] == 'b' and op == 'trunc':
                a = self.frombits(self.bits(a, w))
            elif isinstance(a, tuple) and a[0] == 'b' and op == 'sext':
                b = self.bits(a, self.opw(fn, x.ops[0]))
                a = self.frombits(b + [b[-1]] * (w - len(b)))
            elif isinstance(a, tuple) and a[0] == 'lin' and op == 'trunc':
                r = rng(a, self.R)
                if not (-(1 << (w - 1)) <= r[0] and r[1] < 1 << w):
                    a = None
                elif r[1] < 0:
                    a = ('lin', a[1], a[2] + (1 << w))
            elif isinstance(a, tuple) and a[0] == 'lin' and op == 'sext':
                r = rng(a, self.R)
                sw = self.opw(fn, x.ops[0])
                if r[0] >= 1 << (sw - 1):
                    a = ('lin', a[1], a[2] - (1 << sw))
                elif r[1] >= 1 << (sw - 1):
                    a = None
            elif isinstance(a, tuple) and a[0] == 'lin' and op == 'zext' and rng(a, self.R)[0] < 0:
                a = None
            self.set(env, x.id, a)
            return None
        if op == 'icmp':
            self.set(env, x.id, self.cmp(raw['p'], V(0), V(1), self.opw(fn, x.ops[0])))
            return None
        if op == 'select':
            c = V(0)
            if c is None:
                a, b = V(1), V(2)
                self.set(env, x.id, a if a == b else None)
            else:
                self.set(env, x.id, V(1) if c else V(2))
            return None
        if op in ('call', 'invoke'):
            return self.docall(fn, x, env, m, depth)
        if op == 'br':
            if len(raw['s']) == 1:
                return 'go', raw['s']
            c = V(0)
            if c is None:
                return 'go', raw['s']
            return 'go', [raw['s'][0 if c else 1]]
        if op == 'switch':
            c = V(0)
            w = self.opw(fn, x.ops[0])
            if isinstance(c, int):
                for v, s in raw['cases']:
                    if uns(v, w) == uns(c, w):
                        return 'go', [s]
                return 'go', [raw['def']]
            out = [s for v, s in raw['cases'] if self.cmp('eq', c, uns(v, w), w) != 0]
            return 'go', out + [raw['def']]
        if op == 'ret':
            return 'exit', 'ret', V(0) if x.ops else None
        if op == 'resume':
            return 'exit', 'exc', m.get(('exc', 0))
        if op == 'unreachable':
            return 'dead', None
        if op == 'landingpad':
            return None
        if op == 'extractvalue':
            if raw['ix'] == [1] and isinstance(x.ops[0], int) and fn.ins[x.ops[0]].op == 'landingpad':
                t = m.get(('exc', 0))
                self.set(env, x.id, ('sel', t) if t else None)
            else:
                env.pop(x.id, None)
            return None
        env.pop(x.id, None)
        return None

    def gepoff(self, fn, x, env):
        """offset of a computed element: index times element size"""
        idx = [self.val(o, env) for o in x.ops[1:]]
        var = [(i, v) for i, v in enumerate(idx) if v is None or v != 0]
        st = str(x.raw.get('st', ''))
        if len(var) > 1 or any(v is None for _, v in var):
            return None
        if not var:
            return 0
        i, v = var[0]
        z = None
        if i == 0:
            z = x.raw.get('esz')
            if z is None:
                z = width(st) // 8 if st.startswith('i') else None
        else:
            mm = re.match(r'\[\d+ x i(\d+)\]$', st)
            if mm:
                z = int(mm.group(1)) // 8
        if z is None:
            return None
        if isinstance(v, int):
            return sgn(v, 64) * z
        v = self.aslin(v)
        return lin({s: k * z for s, k in v[1]}, v[2] * z) if isinstance(v, tuple) else None

    # ---- calls
    def docall(self, fn, x, env, m, depth):
        av = [self.val(o, env) for o in x.ops]
        q = self.P.callee_name(x) or ''
        if self.extra:
            h = self.extra(self, fn, x, q, av, m)
            if isinstance(h, list):
                return 'fork', h
            if h is not None:
                return self.done(x, env, m, h)
        if x.callee == '__cxa_throw':
            ti = x.ops[1].get('n') if isinstance(x.ops[1], dict) else None
            m[('exc', 0)] = ti or '?'
            return 'fork', [('exc', ti, m)]
        g = self.P.functions.get(x.callee)
        if g is None and not x.callee:
            g = self.dispatch(x, av, m)
        if g is not None and not g.q.startswith(('std::', '__gnu_cxx::', 'boost::')):
            out = []
            for kind, v, m2 in self.run(g, av, m, depth + 1):
                out.append((kind, v, dict(m2)))
            return 'fork', out
        h = self.std(fn, x, q, av, m)
        if h is None and not callee_harmless(q, x.callee):
            MISSED.append(q)
        if DEBUG and h is None:
            print('unknown', q, x.callee, av, file=sys.stderr)
        if h is None and self.P.is_noreturn(x.callee):
            return 'fork', [('exc', None, m)]
        return self.done(x, env, m, h if h is not None else (None,))

    def dispatch(self, x, av, m):
        """a virtual call on an object whose class is known: the nearest definition"""
        av = av[1:] if x.raw.get('sret') is not None else av
        p = av[0] if av else None
        if not (isinstance(p, tuple) and p[0] == 'p'):
            return None
        c = m.get((p[1], 'class'))
        ts = self.P.target_fns(x) or ()
        while c:
            for g in ts:
                if g.q.rsplit('::', 1)[0] == c:
                    return g
            r = self.P.records.get(c)
            c = next((f['n'].strip('<>') for f in (r or {}).get('f', ()) if f['n'].startswith('<')), None)
        return None

    def done(self, x, env, m, h):
        if h == 'exc':
            return 'fork', [('exc', None, m)]
        self.set(env, x.id, h[0])
        if x.op == 'invoke':
            return 'go', [x.raw['n']]
        return None

    def text(self, m, v):
        """the characters of a string object or of a text constant; None if unknown"""
        if isinstance(v, tuple) and v[0] == 'p':
            if isinstance(v[1], tuple) and v[1][0] == 's' and isinstance(v[2], int):
                return tuple(v[1][1].encode('utf-8')[v[2]:])
            c = m.get((v[1], v[2]))
            if isinstance(c, tuple) and c[0] == 'str':
                return c[1]
            out = []
            for i in range(200):
                ch = self.cell(m, v[1], v[2] + i) if isinstance(v[2], int) else None
                if ch is None:
                    return None
                if ch == 0:
                    return tuple(out)
                out.append(ch)
        if isinstance(v, tuple) and v[0] == 'el':
            c = m.get((v[1], v[2]))
            if isinstance(c, tuple) and c[0] == 'str' and isinstance(v[3], int):
                return c[1][v[3]:]
        return None

    def coll(self, m, v):
        if isinstance(v, tuple) and v[0] == 'p':
            c = m.get((v[1], v[2]))
            if isinstance(c, tuple) and c[0] in ('str', 'vec'):
                return c
        return None

    def decimal(self, v):
        """the text of a number: digits of a sum of digits times powers of ten"""
        v = self.aslin(v)
        if isinstance(v, int):
            return tuple(str(sgn(v, 32)).encode())
        if v is None:
            return None
        t = {k: s for s, k in v[1]}
        if len(t) != len(v[1]) or v[2] < 0:
            return None
        out = []
        p = 1
        rest = v[2]
        n = max(max(t), rest)
        places = []
        while p <= n:
            places.append(p)
            p *= 10
        if any(k not in places for k in t):
            return None
        for p in reversed(places):
            d = (rest // p) % 10
            if p in t:
                if d or self.R[t[p]][0] < 0 or self.R[t[p]][1] > 9:
                    return None
                if not out and self.R[t[p]][0] == 0:
                    return None
                out.append(('lin', ((t[p], 1),), 48))
            elif d or out:
                out.append(48 + d)
        return tuple(out) or (48,)

    def std(self, fn, x, q, av, m):
        name = re.sub(r'<.*', '', q) if not q.startswith('std::operator') else q
        meth = q.rsplit('::', 1)[-1] if '>::' in q or '::' in q else q
        meth = re.sub(r'^.*>::', '', q) if '>::' in q else q.rsplit('::', 1)[-1]
        callee = x.callee or ''
        key = lambda p: (p[1], p[2]) if isinstance(p, tuple) and p[0] == 'p' else None
        if callee.startswith('llvm.'):
            if callee.startswith(('llvm.memcpy', 'llvm.memmove')):
                self.copy(m, av[0], av[1], av[2])
                return (None,)
            if callee.startswith('llvm.memset'):
                p = av[0]
                if isinstance(p, tuple) and p[0] == 'p' and isinstance(p[2], int) and isinstance(av[2], int) and av[2] <= 4096:
                    for i in range(av[2]):
                        self.store(m, ('p', p[1], p[2] + i), av[1])
                return (None,)
            if callee.startswith('llvm.eh.typeid.for'):
                return (('tid', x.ops[0]['n']),) if isinstance(x.ops[0], dict) and 'n' in x.ops[0] else (None,)
            if callee.startswith('llvm.objectsize'):
                return (None,)
            return (None,)
        w = re.match(r'__sa_(min|max)_([us])(\d+)$', callee)
        if w and len(av) == 2:
            c = self.cmp(w.group(2) + 'le', av[0], av[1], int(w.group(3)))
            return (None if c is None else av[0] if bool(c) == (w.group(1) == 'min') else av[1],)
        if callee in ('memcpy', 'memmove'):
            self.copy(m, av[0], av[1], av[2])
            return (av[0],)
        if callee == 'memset' and isinstance(av[2], int) and av[2] <= 4096 and key(av[0]):
            for i in range(av[2]):
                self.store(m, self.move(av[0], i), uns(av[1], 8) if isinstance(av[1], int) else None)
            return (av[0],)
        if callee == 'strchr' and len(av) == 2:
            t = self.text(m, av[0])
            if t is None or not islin(av[1]):
                return (None,)
            c = self.find(t + (0,), (av[1],), 0, 'find')
            return (None if c is None else 0 if c > len(t) else self.move(av[0], c),)
        if callee in ('isspace', 'isdigit') and len(av) == 1 and islin(av[0]):
            l = [self.cmp('eq', av[0], v, 32) for v in ((32, 9, 10, 11, 12, 13) if callee == 'isspace' else range(48, 58))]
            lo, hi = rng(av[0], self.R) if not isinstance(av[0], int) else (av[0], av[0])
            return (1 if 1 in l or callee == 'isdigit' and 48 <= lo and hi <= 57 else None if None in l else 0,)
        if callee in ('memcmp',) and isinstance(av[2], int):
            return (self.compare([self.load(m, self.move(av[0], i)) for i in range(av[2])],
                                 [self.load(m, self.move(av[1], i)) for i in range(av[2])]),)
        if meth.startswith('~') or callee.startswith('__cxa_') or meth in ('reserve', 'shrink_to_fit') or '::allocator' in q.split('(')[0][:20] \
                or name in ('std::allocator', 'std::__new_allocator') or meth in ('__new_allocator', 'allocator'):
            if callee == '__cxa_allocate_exception':
                return (('p', ('ex', x.id), 0),)
            return (None,)
        if name in ('std::move', 'std::forward', 'std::addressof', 'std::as_const', 'std::__addressof', 'std::min', 'std::max', 'std::swap'):
            if name in ('std::min', 'std::max'):
                a, b = self.load(m, av[0]), self.load(m, av[1])
                c = self.cmp('slt', a, b, 32)
                if c is None:
                    return (None,)
                return (av[0] if bool(c) == (name == 'std::min') or a == b else av[1],)
            if name == 'std::swap':
                a, b = self.load(m, av[0]), self.load(m, av[1])
                self.store(m, av[0], b)
                self.store(m, av[1], a)
                return (None,)
            return (av[0],)
        if name.endswith('to_string') and len(av) == 2:
            self.setstr(m, av[0], self.decimal(av[1]))
            return (None,)
        if q.startswith(('std::__cxx11::basic_string', 'std::basic_string')):
            return self.string(x, meth, av, m, key)
        if re.match(r'std::operator\+', q) and key(av[0]) and len(av) == 3:
            a = [self.piece(m, v) for v in av[1:]]
            self.setstr(m, av[0], a[0] + a[1] if None not in a else None)
            return (None,)
        w = re.match(r'_ZSt(eq|ne|lt|gt)I([hcai])Lm(\d+)E', callee)
        if w and key(av[0]) and key(av[1]):                          # comparisons of arrays
            n, z = int(w.group(3)), {'i': 4}.get(w.group(2), 1)
            a, b = ([self.load(m, self.move(p, z * i)) for i in range(n)] for p in av)
            if w.group(1) in ('eq', 'ne'):
                c = self.equal(a, b)
                return (None if c is None else int(c == (w.group(1) == 'eq')),)
            c = self.compare(a, b) if w.group(2) == 'h' else None
            return (None if c is None else int((c == 0xffffffff) if w.group(1) == 'lt' else c == 1),)
        if re.match(r'std::operator(==|!=)', q) and len(av) == 2:
            a = [self.text(m, v) if self.text(m, v) is not None else (self.coll(m, v) or (0, None))[1] for v in av]
            if a[0] is None or a[1] is None:
                return (None,)
            c = self.equal(a[0], a[1])
            return (None,) if c is None else (int(c == ('==' in q)),)
        if q.startswith('std::vector'):
            return self.vector(x, meth, av, m, key)
        if q.startswith('std::array'):
            return self.array(x, q, meth, av, m)
        if q.startswith('std::map') or q.startswith('std::unordered_map'):
            return self.map(x, meth, av, m)
        if q.startswith('std::pair') or q.startswith('std::make_pair'):
            if q.startswith('std::make_pair') and key(av[0]):
                m[key(av[0])] = ('pair', self.load(m, av[1]), m.get(key(av[2])) if key(av[2]) else None)
            return (None,)
        if q.startswith('std::initializer_list'):
            p = self.load(m, av[0])
            n = self.load(m, self.move(av[0], 8))
            if meth == 'begin':
                return (p,)
            if meth == 'size':
                return (n,)
            if meth == 'end' and isinstance(n, int):
                z = 4 if '<int>' in q else 1 if '<char>' in q or 'unsigned char>' in q else None
                return (self.move(p, n * z),) if z else (None,)
        if q.startswith('__gnu_cxx::'):
            return self.iterator(x, meth, av, m, key)
        if name == 'std::equal':
            a, b = self.range(m, av[0], av[1]), None
            if a is not None:
                b = [self.load(m, self.move(av[2], i)) for i in range(len(a))]
                c = self.equal(tuple(a), tuple(b))
                return (None,) if c is None else (int(c),)
        if name in ('std::copy', 'std::copy_n', 'std::fill', 'std::fill_n'):
            if name == 'std::copy' and key(av[2]) or name == 'std::copy' and isinstance(av[2], tuple) and av[2][0] == 'el':
                a = self.range(m, av[0], av[1])
                if a is not None:
                    for i, v in enumerate(a):
                        self.store(m, self.move(av[2], i), v)
                    return (self.move(av[2], len(a)),)
            if name == 'std::copy_n' and isinstance(av[1], int):
                for i in range(av[1]):
                    self.store(m, self.move(av[2], i), self.load(m, self.move(av[0], i)))
                return (self.move(av[2], av[1]),)
            if name == 'std::fill':
                p, i = av[0], 0
                while i < 300 and self.cmp('ne', self.move(p, i), av[1], 64):
                    self.store(m, self.move(p, i), self.load(m, av[2]))
                    i += 1
                return (None,)
            if name == 'std::fill_n' and isinstance(av[1], int):
                for i in range(av[1]):
                    self.store(m, self.move(av[0], i), self.load(m, av[2]))
                return (None,)
        if name in ('std::begin', 'std::end', 'std::size'):
            c = self.coll(m, av[0])
            if c and name != 'std::size':
                return (('el', av[0][1], av[0][2], 0 if name == 'std::begin' else len(c[1])),)
        self.lost.append('%s is not modelled' % q[:80])
        MISSED.append(q)
        return None

    def range(self, m, a, b):
        out = []
        i = 0
        while i < 300:
            c = self.cmp('ne', self.move(a, i), b, 64)
            if c is None:
                return None
            if not c:
                return out
            out.append(self.load(m, self.move(a, i)))
            i += 1
        return None

    def equal(self, a, b):
        if len(a) != len(b):
            return False
        sure = True
        for u, v in zip(a, b):
            c = self.cmp('eq', u, v, 32)
            if c == 0:
                return False
            if c is None:
                sure = False
        return True if sure else None

    def compare(self, a, b):
        for u, v in zip(a, b):
            if self.cmp('eq', u, v, 32) == 1:
                continue
            if self.cmp('ult', u, v, 32) == 1:
                return (1 << 32) - 1
            if self.cmp('ugt', u, v, 32) == 1:
                return 1
            return None
        return 0

    def find(self, t, u, i, meth):
        """where a text is found: a position, the end of all texts, or None when that is not certain"""
        while i + (len(u) if meth == 'find' else 1) <= len(t):
            if meth == 'find':
                c = self.equal(t[i:i + len(u)], u)
            else:
                l = [self.cmp('eq', t[i], v, 8) for v in u]
                c = True if 1 in l else None if None in l else False
                if meth.endswith('not_of') and c is not None:
                    c = not c
            if c is None:
                return None
            if c:
                return i
            i += 1
        return (1 << 64) - 1

    def piece(self, m, v):
        if islin(v):
            return (v,)
        return self.text(m, v)

    def setstr(self, m, p, t):
        if isinstance(p, tuple) and p[0] == 'p':
            if t is None:
                m.pop((p[1], p[2]), None)
            else:
                m[(p[1], p[2])] = ('str', tuple(t))

    def string(self, x, meth, av, m, key):
        p = av[0]
        t = self.coll(m, p)
        t = t[1] if t and t[0] == 'str' else None
        n = len(x.ops)
        if meth == 'basic_string':
            d = x.callee or ''
            if n == 1 or n == 2 and re.search(r'C[12]ERKS3_$', d):
                self.setstr(m, p, ())
            elif re.search(r'C[12]E(RKS4_|OS4_)', d) or re.search(r'C[12]EPKcRKS3_|C[12]IS3_vEEPKc|C[12]EPKc', d):
                s = self.text(m, av[1])
                if s is not None and n >= 3 and isinstance(av[2], int) and 'EPKcm' in d:
                    s = s[:av[2]]
                elif s is not None and re.search(r'ERKS4_m', d):
                    if not isinstance(av[2], int) or n > 3 and 'mm' in d and not isinstance(av[3], int):
                        s = None
                    else:
                        s = s[av[2]:][:av[3]] if 'mm' in d else s[av[2]:]
                self.setstr(m, p, s)
            elif re.search(r'C[12]Emc', d):
                self.setstr(m, p, (av[2],) * av[1] if isinstance(av[1], int) else None)
            else:
                s = self.range(m, av[1], av[2]) if n >= 3 else None
                self.setstr(m, p, s)
            return (None,)
        if meth in ('size', 'length'):
            return (len(t) if t is not None else None,)
        if meth == 'empty':
            return (int(not t) if t is not None else None,)
        if meth in ('operator[]', 'at'):
            if isinstance(av[1], int) and t is not None:
                if meth == 'at' and not 0 <= av[1] < len(t):
                    return 'exc'
                return (('el', p[1], p[2], av[1]),)
            return (None,)
        if meth in ('front', 'back') and t:
            return (('el', p[1], p[2], 0 if meth == 'front' else len(t) - 1),)
        if meth in ('data', 'c_str', 'begin', 'cbegin') and key(p):
            return (('el', p[1], p[2], 0),)
        if meth in ('end', 'cend') and t is not None:
            return (('el', p[1], p[2], len(t)),)
        if meth in ('clear',):
            self.setstr(m, p, ())
            return (None,)
        if meth == 'resize':
            c = av[2] if n > 2 else 0
            self.setstr(m, p, (t + (c,) * av[1])[:av[1]] if t is not None and isinstance(av[1], int) else None)
            return (None,)
        if meth in ('operator+=', 'append', 'push_back'):
            if n == 2:
                s = self.piece(m, av[1])
            elif 'Emc' in (x.callee or ''):
                s = (av[2],) * av[1] if isinstance(av[1], int) else None
            elif 'EPKcm' in (x.callee or ''):
                s = self.text(m, av[1])
                s = s[:av[2]] if s is not None and isinstance(av[2], int) else None
            else:
                s = self.text(m, av[1])
                if s is not None and isinstance(av[2], int):
                    s = s[av[2]:][:av[3] if n > 3 and isinstance(av[3], int) else None]
                else:
                    s = self.range(m, av[1], av[2])
                    s = tuple(s) if s is not None else None
            self.setstr(m, p, t + s if t is not None and s is not None else None)
            return (p,)
        if meth in ('operator=', 'assign') and n == 2:
            self.setstr(m, p, self.piece(m, av[1]))
            return (p,)
        if meth == 'substr':      # sret
            s = self.text(m, av[1])
            a, b = av[2], av[3]
            self.setstr(m, p, s[a:][:b] if s is not None and isinstance(a, int) and isinstance(b, int) else None)
            return (None,)
        if meth == 'pop_back' and t:
            self.setstr(m, p, t[:-1])
            return (None,)
        if meth == 'erase' and t is not None and len(av) >= 2 and isinstance(av[1], int):
            k = av[2] if len(av) > 2 and isinstance(av[2], int) else len(t)
            self.setstr(m, p, t[:av[1]] + t[av[1]:][k:])
            return (p,)
        if meth == 'insert' and t is not None and isinstance(av[1], int):
            s = self.piece(m, av[2]) if n == 3 else ((av[3],) * av[2] if isinstance(av[2], int) and 'mc' in (x.callee or '') else None)
            self.setstr(m, p, t[:av[1]] + s + t[av[1]:] if s is not None else None)
            return (p,)
        if meth in ('find', 'find_first_of', 'find_first_not_of') and t is not None and n >= 2 and 'EPKcm' not in (x.callee or ''):
            u = self.piece(m, av[1])
            i = av[2] if n > 2 else 0
            if u is not None and isinstance(i, int):
                return (self.find(t, u, i, meth),)
            return (None,)
        if meth == 'compare' and n == 2 and t is not None:
            u = self.text(m, av[1])
            return (self.compare(list(t) + [-1], list(u) + [-1]) if u is not None else None,)
        self.setstr(m, p, None)
        self.lost.append('%s of a string is not modelled' % meth)
        MISSED.append(q_of(x, meth))
        return (None,)

    def vector(self, x, meth, av, m, key):
        p = av[0]
        t = self.coll(m, p)
        t = t[1] if t and t[0] == 'vec' else None
        n = len(x.ops)
        k = key(p)
        if k is None and not (isinstance(p, tuple)):
            self.lost.append('a vector is not known')
            return (None,)

        def put(v):
            if v is None:
                m.pop(k, None)
            else:
                m[k] = ('vec', tuple(v))
        if meth == 'vector':
            d = x.callee or ''
            if n == 1:
                put(())
            elif 'initializer_list' in d:
                a, c = av[1], av[2]
                z = 4 if 'SIiE' in d or 'IiSaIiE' in d else 1
                put([self.load(m, self.move(a, i * z)) for i in range(c)] if isinstance(c, int) and isinstance(a, tuple) else None)
            elif re.search(r'C[12]E(RKS1_|OS1_|RKS\d?_$|OS\d?_$)', d):
                c = self.coll(m, av[1])
                put(c[1] if c else None)
            elif isinstance(av[1], int):
                v = self.load(m, av[2]) if n > 3 else 0
                put((v,) * av[1])
            else:
                put(self.range(m, av[1], av[2]) if n > 2 else None)
            return (None,)
        if meth == 'size':
            return (len(t) if t is not None else None,)
        if meth == 'empty':
            return (int(not t) if t is not None else None,)
        if meth in ('operator[]', 'at'):
            if isinstance(av[1], int) and t is not None:
                if meth == 'at' and not 0 <= av[1] < len(t):
                    return 'exc'
                return (('el', p[1], p[2], av[1]),)
            return (None,)
        if meth in ('front', 'back') and t:
            return (('el', p[1], p[2], 0 if meth == 'front' else len(t) - 1),)
        if meth in ('begin', 'cbegin', 'data') and k:
            return (('el', p[1], p[2], 0),)
        if meth in ('end', 'cend') and t is not None:
            return (('el', p[1], p[2], len(t)),)
        if meth in ('push_back', 'emplace_back'):
            put(t + (self.load(m, av[1]),) if t is not None else None)
            return (None,)
        if meth == 'pop_back' and t:
            put(t[:-1])
            return (None,)
        if meth == 'clear':
            put(())
            return (None,)
        if meth == 'resize' and isinstance(av[1], int):
            v = self.load(m, av[2]) if n > 2 else 0
            put((t + (v,) * av[1])[:av[1]] if t is not None and av[1] < 5000 else None)
            return (None,)
        if meth == 'assign':
            if isinstance(av[1], int):
                put((self.load(m, av[2]),) * av[1])
            else:
                put(self.range(m, av[1], av[2]))
            return (None,)
        if meth == 'operator=':
            c = self.coll(m, av[1])
            put(c[1] if c else None)
            return (p,)
        if meth == 'insert' and t is not None and n >= 3:
            at = self.load(m, av[1]) if key(av[1]) else av[1]
            if isinstance(at, tuple) and at[0] == 'el':
                i = at[3]
                if n == 3:
                    put(t[:i] + (self.load(m, av[2]),) + t[i:])
                    return (at,)
                if n == 4:
                    s = self.range(m, av[2], av[3]) if not isinstance(av[2], int) else [self.load(m, av[3])] * av[2]
                    put(t[:i] + tuple(s) + t[i:] if s is not None else None)
                    return (at,)
        if k:
            m.pop(k, None)
        self.lost.append('%s of a vector is not modelled' % meth)
        MISSED.append(q_of(x, meth))
        return (None,)

    def array(self, x, q, meth, av, m):
        a = re.match(r'std::array<(.*), (\d+)', q)
        z = {'unsigned char': 1, 'char': 1, 'int': 4}.get(a.group(1)) if a else None
        if z is None and a and a.group(1).startswith('std::vector'):
            z = 24
        n = int(a.group(2)) if a else None
        if z is None:
            return None
        if meth in ('operator[]', 'at') and isinstance(av[1], int):
            if meth == 'at' and av[1] >= n:
                return 'exc'
            return (self.move(av[0], av[1] * z),)
        if meth in ('begin', 'cbegin', 'data', 'front'):
            return (av[0],)
        if meth in ('end', 'cend'):
            return (self.move(av[0], n * z),)
        if meth == 'back':
            return (self.move(av[0], (n - 1) * z),)
        if meth == 'size':
            return (n,)
        if meth == 'fill':
            for i in range(n):
                self.store(m, self.move(av[0], i * z), self.load(m, av[1]))
            return (None,)
        if meth == 'array' and z == 24:
            for i in range(n):
                m[(av[0][1], av[0][2] + 24 * i)] = ('vec', ())
            return (None,)
        return None

    def map(self, x, meth, av, m):
        p = av[0]
        if meth == 'map' and len(av) == 1:
            return (None,)
        k = self.load(m, av[1]) if len(av) > 1 else None
        if meth in ('operator[]', 'at') and isinstance(k, int):
            o = ('me', p[1], p[2], k)
            if meth == 'operator[]' and (o, 0) not in m:
                m[(o, 0)] = ('vec', ())
            if meth == 'at' and (o, 0) not in m:
                return 'exc'
            return (('p', o, 0),)
        if meth in ('insert', 'emplace'):
            c = m.get((av[1][1], av[1][2])) if isinstance(av[1], tuple) and av[1][0] == 'p' else None
            if isinstance(c, tuple) and c[0] == 'pair' and isinstance(c[1], int):
                o = ('me', p[1], p[2], c[1])
                if (o, 0) not in m:
                    m[(o, 0)] = c[2] if c[2] is not None else ('vec', ())
                return (None,)
        return None

    def iterator(self, x, meth, av, m, key):
        def it(v):
            if isinstance(v, tuple) and v[0] == 'p':
                return self.load(m, v)
            return v
        a = it(av[0]) if av else None
        post = '#i' if (x.callee or '').endswith('Ei') else ''
        if meth.startswith('__normal_iterator'):
            v = self.load(m, av[1]) if len(av) > 1 and key(av[1]) else av[1] if len(av) > 1 else None
            self.store(m, av[0], v)
            return (None,)
        if meth in ('operator*', 'operator->', 'base'):
            return (a,)
        if meth in ('operator++', 'operator--'):
            n = self.move(a, 1 if '+' in meth else -1)
            self.store(m, av[0], n)
            return (a,) if len(av) > 1 else (av[0],)
        if meth in ('operator+=', 'operator-='):
            n = self.move(a, sgn(av[1], 64) * (1 if '+' in meth else -1)) if isinstance(av[1], int) else None
            self.store(m, av[0], n)
            return (av[0],)
        if meth == 'operator[]' and isinstance(av[1], int):
            return (self.move(a, sgn(av[1], 64)),)
        if meth in ('operator+', 'operator-'):
            if isinstance(av[1], int):
                return (self.move(a, sgn(av[1], 64) * (1 if '+' in meth else -1)),)
            b = it(av[1])
            if isinstance(a, tuple) and isinstance(b, tuple) and a[:3] == b[:3]:
                return (a[3] - b[3],)
            return (None,)
        ops = {'operator!=': 'ne', 'operator==': 'eq', 'operator<': 'slt', 'operator>': 'sgt', 'operator<=': 'sle', 'operator>=': 'sge'}
        q = meth.split('<')[0] if meth.startswith('operator') and not meth.startswith('operator<') else meth
        if meth in ops:
            return (self.cmp(ops[meth], a, it(av[1]), 64),)
        return None
