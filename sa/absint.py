"""Disjunctive constant propagation: a forward dataflow analysis whose facts are sets of environments that map
SSA values and named memory cells to constants (anything else is unknown).  Used to read the finite tables a
function implements (mode -> open flags, field type -> length, outcome -> exit code) whatever way they are written.
Branches on unknown values go both ways; nothing is executed and no path condition is handed to a solver."""
from .build import Broken

UNK = None


def width(t):
    if isinstance(t, str) and t.startswith('i') and t[1:].isdigit():
        return int(t[1:])
    return 64


def uns(v, w):
    return v & ((1 << w) - 1)


def sgn(v, w):
    v = uns(v, w)
    return v - (1 << w) if v >> (w - 1) else v


class AI:
    widen = 24
    cap = None      # saturation of sums: a running total beyond this stands for any larger one
    """run(fn, args, mem): exits = set of (kind, retvalue, memory items)"""

    def __init__(self, P, call=None, on=None, exc=False, limit=60000, depth=4, track=None):
        self.P = P
        self.call = call          # call(ai, x, argvalues, mem) -> (handled, value)
        self.on = on              # on(x, argvalues/None, mem)
        self.exc = exc
        self.limit = limit
        self.maxdepth = depth
        self.track = track        # memory cells kept (predicate on the address expression), default all
        self.steps = 0
        self.count = {}

    def live(self, fn):
        c = getattr(fn, '_live', None)
        if c is not None:
            return c
        n = len(fn.blocks)
        use = [set() for _ in range(n)]
        df = [set() for _ in range(n)]
        phiuse = {}
        for bi, b in enumerate(fn.blocks):
            for x in b:
                if x.op == 'phi':
                    for pb, v in x.raw['in']:
                        if isinstance(v, int):
                            phiuse.setdefault(pb, set()).add(v)
                else:
                    for o in fn._opids(x):
                        if o not in df[bi]:
                            use[bi].add(o)
                df[bi].add(x.id)
        inn = [set(u) for u in use]
        out = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set(phiuse.get(b, ()))
                for s in fn.succ[b]:
                    o |= inn[s]
                i = use[b] | (o - df[b])
                if o != out[b] or i != inn[b]:
                    out[b] = o
                    inn[b] = i
                    ch = True
        fn._live = (inn, out)
        return fn._live

    def run(self, fn, args=None, mem=None, depth=0, edge=None):
        """-> set of (kind, value, mem) with kind 'ret' or 'exc'"""
        args = {i: v for i, v in (args or {}).items() if v is not None}
        mem = dict(mem or {})
        inn, out = self.live(fn)
        exits = set()
        start = (0, frozenset(args.items()), frozenset(mem.items()))
        seen = {start}
        work = [start]
        if edge:            # (block, successor, environment): start there instead of at the entry
            seen, work = set(), []
            self.push(fn, edge[0], edge[1], dict(edge[2]), mem, inn, work, seen)
        while work:
            self.steps += 1
            if self.steps > self.limit:
                raise Broken('constant propagation of %s exceeds its bound' % fn.q)
            b, fe, fm = work.pop()
            env, m = dict(fe), dict(fm)
            # phis were evaluated on the edge
            for x in fn.blocks[b]:
                if x.op == 'phi':
                    continue
                alts = self.step(fn, x, env, m, depth)
                if alts is None:
                    continue
                kind, what = alts
                if kind == 'exit':
                    exits.add((what[0], what[1], frozenset(m.items())))
                elif kind == 'dead':
                    pass
                elif kind == 'fork':      # callee with several outcomes: [(env, mem)]
                    rest = fn.blocks[b][x.pos + 1:]
                    for e2, m2 in what:
                        if x.op == 'invoke':
                            self.push(fn, b, x.raw['n'], e2, m2, inn, work, seen)
                        else:
                            self.cont(fn, b, rest, e2, m2, inn, work, seen, exits, depth)
                elif kind == 'go':
                    for s, e2 in what:
                        self.push(fn, b, s, e2, m, inn, work, seen)
                break
        return exits

    def cont(self, fn, b, rest, env, m, inn, work, seen, exits, depth):
        for k, x in enumerate(rest):
            r = self.step(fn, x, env, m, depth)
            if r is None:
                continue
            kind, what = r
            if kind == 'exit':
                exits.add((what[0], what[1], frozenset(m.items())))
            elif kind == 'fork':
                for e2, m2 in what:
                    if x.op == 'invoke':
                        self.push(fn, b, x.raw['n'], e2, m2, inn, work, seen)
                    else:
                        self.cont(fn, b, rest[k + 1:], e2, m2, inn, work, seen, exits, depth)
            elif kind == 'go':
                for s, e2 in what:
                    self.push(fn, b, s, e2, m, inn, work, seen)
            return

    def push(self, fn, a, s, env, m, inn, work, seen):
        new = {}
        for x in fn.blocks[s]:
            if x.op != 'phi':
                break
            for pb, v in x.raw['in']:
                if pb == a:
                    r = self.val(fn, v, env)
                    if r is not None:
                        new[x.id] = r
        phis = {x.id for x in fn.blocks[s] if x.op == 'phi'}
        e2 = {k: v for k, v in env.items() if (k in inn[s] or k < fn.nargs) and k not in phis}
        e2.update(new)
        st = (s, frozenset(e2.items()), frozenset(m.items()))
        if st not in seen:
            c = self.count.get((fn, s), 0)
            self.count[(fn, s)] = c + 1
            if c > self.widen:      # widen: forget the temporaries, keep the arguments and the named cells
                st = (s, frozenset((k, v) for k, v in e2.items() if k < fn.nargs), st[2])
                if st in seen:
                    return
            seen.add(st)
            work.append(st)

    def val(self, fn, o, env):
        if isinstance(o, dict):
            k = o.get('k')
            if k == 'i':
                return uns(o['v'], o.get('w') or 64)
            if k == 'null':
                return 0
            if k in ('s', 's16', 's32'):
                return ('s', o['v'])
            if k == 'fn':
                return ('fn', o['n'])
            if k == 'g':
                return ('g', o['n'])
            return None
        return env.get(o)

    def key(self, fn, o):
        if self.track is None:
            e = fn.e(o)
            return e
        e = fn.e(o)
        return e if self.track(e) else None

    def step(self, fn, x, env, m, depth):
        op = x.op
        raw = x.raw
        if op in ('load', 'store', 'call', 'invoke', 'ret', 'br', 'switch') and self.on:
            self.on(fn, x, [self.val(fn, o, env) for o in x.ops], m)
        if op == 'load':
            k = self.key(fn, x.ops[0])
            v = m.get(k) if k is not None else None
            if v is None:
                e = fn.e(x.id)
                if e[0] == 'c':
                    v = uns(e[1], width(raw['t']))
            if v is not None:
                env[x.id] = v
            else:
                env.pop(x.id, None)
            return None
        if op == 'store':
            k = self.key(fn, x.ops[1])
            if k is not None:
                v = self.val(fn, x.ops[0], env)
                # a store through an unresolved pointer does not change named cells (type-based: stated assumption)
                if v is None:
                    m.pop(k, None)
                else:
                    m[k] = v
            return None
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = self.val(fn, x.ops[0], env), self.val(fn, x.ops[1], env)
            w = width(raw['t'])
            r = None
            if isinstance(a, int) and isinstance(b, int):
                r = arith(op, a, b, w)
                if self.cap and op == 'add' and self.cap < a + b < 1 << (w - 1):
                    r = self.cap
            elif op == 'and' and (a == 0 or b == 0):
                r = 0
            elif op == 'mul' and (a == 0 or b == 0):
                r = 0
            elif op == 'or' and w == 1 and (a == 1 or b == 1):
                r = 1
            self.set(env, x.id, r)
            return None
        if op in ('zext', 'trunc', 'sext', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'):
            a = self.val(fn, x.ops[0], env)
            r = a
            if isinstance(a, int):
                w = width(raw['t'])
                if op == 'trunc':
                    r = uns(a, w)
                elif op == 'sext':
                    sw = self.opw(fn, x.ops[0])
                    r = uns(sgn(a, sw), w)
            self.set(env, x.id, r)
            return None
        if op == 'icmp':
            a, b = self.val(fn, x.ops[0], env), self.val(fn, x.ops[1], env)
            r = None
            if isinstance(a, int) and isinstance(b, int):
                w = max(self.opw(fn, x.ops[0]), self.opw(fn, x.ops[1])) if not (isinstance(x.ops[0], dict) and isinstance(x.ops[1], dict)) else 64
                w = self.opw(fn, x.ops[0])
                r = int(icmp(raw['p'], a, b, w))
            elif a is not None and b is not None and raw['p'] in ('eq', 'ne'):
                # a known object against null
                if isinstance(a, tuple) and b == 0 or isinstance(b, tuple) and a == 0:
                    r = int(raw['p'] == 'ne')
                elif a == b:
                    r = int(raw['p'] == 'eq')
            self.set(env, x.id, r)
            return None
        if op == 'select':
            c = self.val(fn, x.ops[0], env)
            if c is None:
                a, b = self.val(fn, x.ops[1], env), self.val(fn, x.ops[2], env)
                self.set(env, x.id, a if a == b else None)
            else:
                self.set(env, x.id, self.val(fn, x.ops[1] if c else x.ops[2], env))
            return None
        if op in ('call', 'invoke'):
            return self.docall(fn, x, env, m, depth)
        if op == 'br':
            if len(raw['s']) == 1:
                return 'go', [(raw['s'][0], env)]
            c = self.val(fn, x.ops[0], env)
            if c is None:
                out = []
                for s, tr in ((raw['s'][0], True), (raw['s'][1], False)):
                    e2 = dict(env)
                    self.refine(fn, x.ops[0], tr, e2)
                    out.append((s, e2))
                return 'go', out
            return 'go', [(raw['s'][0 if c else 1], env)]
        if op == 'switch':
            c = self.val(fn, x.ops[0], env)
            w = self.opw(fn, x.ops[0])
            if isinstance(c, int):
                for v, s in raw['cases']:
                    if uns(v, w) == c:
                        return 'go', [(s, env)]
                return 'go', [(raw['def'], env)]
            out = []
            for v, s in raw['cases']:
                e2 = dict(env)
                if isinstance(x.ops[0], int):
                    e2[x.ops[0]] = uns(v, w)
                out.append((s, e2))
            out.append((raw['def'], env))
            return 'go', out
        if op == 'ret':
            return 'exit', ('ret', self.val(fn, x.ops[0], env) if x.ops else None)
        if op == 'resume':
            return 'exit', ('exc', None)
        if op == 'unreachable':
            return 'dead', None
        if op not in ('alloca', 'phi'):
            env.pop(x.id, None)
        return None

    def set(self, env, k, v):
        if v is None:
            env.pop(k, None)
        else:
            env[k] = v

    def opw(self, fn, o):
        if isinstance(o, dict):
            return o.get('w') or 64
        if o < fn.nargs:
            return width(fn.args[o][1])
        return width(fn.ins[o].raw['t'])

    def refine(self, fn, o, tr, env):
        if not isinstance(o, int):
            return
        env[o] = int(tr)
        x = fn.ins.get(o)
        if x is None:
            return
        if x.op == 'icmp' and (x.raw['p'] == 'eq') == tr and x.raw['p'] in ('eq', 'ne'):
            a, b = x.ops
            va, vb = self.val(fn, a, env), self.val(fn, b, env)
            if isinstance(a, int) and va is None and vb is not None:
                env[a] = vb
            elif isinstance(b, int) and vb is None and va is not None:
                env[b] = va

    def docall(self, fn, x, env, m, depth):
        argv = [self.val(fn, o, env) for o in x.ops]
        if self.call:
            h = self.call(self, fn, x, argv, m, env)
            if h is not None:
                if h == 'dead':
                    return 'dead', None
                if isinstance(h, list):     # alternatives: values
                    outs = []
                    for v in h:
                        e2, m2 = dict(env), dict(m)
                        if isinstance(v, tuple) and v and v[0] == 'alt':     # a value together with changes of memory
                            for k, c in v[2].items():
                                self.set(m2, k, c)
                            v = v[1]
                        self.set(e2, x.id, v)
                        outs.append((e2, m2))
                    return 'fork', outs
                self.set(env, x.id, h[0])
                return ('go', [(x.raw['n'], env)]) if x.op == 'invoke' else None
        if self.P.is_noreturn(x.callee):
            if x.op == 'invoke' and self.exc:
                return 'go', [(x.raw['u'], env)]
            return 'exit', ('exc', None)
        self.set(env, x.id, None)
        e = fn.e(x.id)
        if e[0] == 'c':
            env[x.id] = uns(e[1], width(x.raw['t']))
        elif e[0] == 'ld' and e[1] in m:
            env[x.id] = m[e[1]]
        if x.op == 'invoke':
            out = [(x.raw['n'], env)]
            if self.exc:
                out.append((x.raw['u'], dict(env)))
            return 'go', out
        return None


def arith(op, a, b, w):
    a, b = uns(a, w), uns(b, w)
    if op == 'add':
        return uns(a + b, w)
    if op == 'sub':
        return uns(a - b, w)
    if op == 'mul':
        return uns(a * b, w)
    if op == 'and':
        return a & b
    if op == 'or':
        return a | b
    if op == 'xor':
        return a ^ b
    if op == 'shl':
        return uns(a << b, w) if b < w else None
    if op == 'lshr':
        return a >> b if b < w else None
    if op == 'ashr':
        return uns(sgn(a, w) >> b, w) if b < w else None
    if b == 0:
        return None
    if op == 'udiv':
        return a // b
    if op == 'urem':
        return a % b
    sa, sb = sgn(a, w), sgn(b, w)
    q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
    return uns(q if op == 'sdiv' else sa - q * sb, w)


def icmp(p, a, b, w):
    if p == 'eq':
        return uns(a, w) == uns(b, w)
    if p == 'ne':
        return uns(a, w) != uns(b, w)
    if p[0] == 'u':
        a, b = uns(a, w), uns(b, w)
    else:
        a, b = sgn(a, w), sgn(b, w)
    return {'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p[1:]]


_OR = 'std::operator|'


def stdcalls(ai, fn, x, argv, m, env):
    """iostream open modes, library calls that only touch their own objects"""
    q = ai.P.callee_name(x) or ''
    if q in ('std::operator|', 'std::operator&', 'std::operator^') and all(isinstance(a, int) for a in argv):
        return (arith({'|': 'or', '&': 'and', '^': 'xor'}[q[-1]], argv[0], argv[1], 32),)
    if q in ('std::operator|=', 'std::operator&='):
        k = fn.e(x.ops[0])
        a, b = m.get(k), argv[1]
        if isinstance(a, int) and isinstance(b, int):
            m[k] = arith('or' if '|' in q else 'and', a, b, 32)
        else:
            m.pop(k, None)
        return (('addr', k),)
    if q == 'std::operator~' and isinstance(argv[0], int):
        return (uns(~argv[0], 32),)
    return None


def summary(P, f, argv, call=None, depth=3):
    """possible return values of a function of the project for known arguments (None in the set: unknown)"""
    def cb(ai, fn, x, av, m, env):
        r = call(ai, fn, x, av, m, env) if call else None
        if r is None:
            r = stdcalls(ai, fn, x, av, m, env)
        if r is None and depth > 0:
            g = P.functions.get(x.callee)
            if g is not None and len(g.blocks) < 120 and any(a is not None for a in av):
                vs = summary(P, g, av, call, depth - 1)
                if vs and None not in vs:
                    return sorted(vs, key=repr) if len(vs) > 1 else (next(iter(vs)),)
        return r
    ai = AI(P, call=cb)
    return {v for k, v, m in ai.run(f, dict(enumerate(argv))) if k == 'ret'}
