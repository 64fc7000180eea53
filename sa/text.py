"""Contents of strings along the paths of a function: constant propagation whose cells hold, for every local string
and stream, the sequence of pieces it is made of.  A piece is ('t', text) or a tuple naming where the text comes from.
Counters are not followed (every sum inside a loop is unknown), so loops are covered for any number of passes."""
import re
from .absint import AI
from .terms import Terms, simple, CTOR, DTOR, STR

MAX = 40


def norm(ps):
    out = []
    for p in ps:
        if p[0] == 't' and not p[1]:
            continue
        if p[0] == 't' and out and out[-1][0] == 't':
            out[-1] = ('t', out[-1][1] + p[1])
        else:
            out.append(p)
    if len(out) > MAX:
        out = [('?', 'long')]
    if len(out) > 1 and any(p[0] == '?' for p in out):
        out = [('?', 'mixed')]
    return tuple(out)


class TextAI(AI):
    """ext(ai, fn, x, q, env, m) -> None, (value,), [values] or 'dead': what calls do, before the rules for strings"""

    widen = 4000     # no counters: nothing to widen

    def __init__(self, P, ext=None, edge=None, limit=60000, start=None):
        AI.__init__(self, P, call=self.strings, limit=limit, track=self.local)
        self.ext = ext
        self.edge = edge
        self.start = start
        self.terms = {}

    def T(self, fn):
        if fn not in self.terms:
            self.terms[fn] = Terms(fn)
        return self.terms[fn]

    @staticmethod
    def local(e):
        return e[0] == 'alloca' or e[0] == 'fld' and e[1][0] in ('alloca', 'arg') or e[0] == 'elt'

    # ---- pieces
    def pieces(self, fn, o, m, env=None):
        e = fn.e(o)
        return self.expr(fn, e, m, env, o)

    def expr(self, fn, e, m, env=None, o=None):
        if e[0] == 's':
            return (('t', e[1]),)
        if e[0] == 'alloca':
            v = m.get(('T', e))
            return v if v is not None else (('?', e),)
        if ('T', e) in m:
            return m[('T', e)]
        if env is not None and isinstance(o, int):
            v = env.get(o)
            if isinstance(v, tuple) and v[0] == 's':
                return (('t', v[1]),)
            if isinstance(v, tuple) and v[0] == 'P':
                return m.get(('T', v[1]), (('?', v[1]),))
        return (('?', self.T(fn).e(e)),)

    def put(self, fn, o, m, ps):
        m[('T', fn.e(o))] = norm(ps)

    def step(self, fn, x, env, m, depth):
        op = x.op
        if op in ('add', 'sub', 'mul') and fn.in_loop(x):
            env.pop(x.id, None)
            return None
        if op == 'alloca':
            return None
        if op == 'br' and len(x.raw['s']) == 2 and self.edge:
            r = AI.step(self, fn, x, env, m, depth)
            out = []
            for s, e2 in r[1]:
                e2 = dict(e2)
                if self.edge(fn, x, x.raw['s'][0] == s, e2) is not False:
                    out.append((s, e2))
            return 'go', out
        if op == 'load' and x.raw.get('t') in ('ptr',):
            e = fn.e(x.ops[0])
            if ('T', e) in m:
                env[x.id] = ('P', e)
                return None
        return AI.step(self, fn, x, env, m, depth)

    def strings(self, ai, fn, x, argv, m, env):
        q = simple(self.P.callee_name(x) or '')
        if self.ext:
            r = self.ext(self, fn, x, q, env, m)
            if r is not None:
                return r
        n = x.raw.get('f') or ''
        last = q.split('::')[-1]
        P = lambda i: self.pieces(fn, x.ops[i], m, env)
        none = (None,)
        if DTOR.search(n):
            if x.ops:
                m.pop(('T', fn.e(x.ops[0])), None)
            return none
        sret = x.raw.get('sret')
        if q.startswith(STR + '::') or q.startswith('std::string::'):
            if last == 'basic_string' and CTOR.search(n):
                e = fn.e(x.ops[0])
                if len(x.ops) == 1:
                    m[('T', e)] = ()
                elif len(x.ops) == 2 or len(x.ops) == 3 and self.isptr(fn, x.ops[2]):
                    m[('T', e)] = P(1) if 'EPKc' not in n else tuple(p if p[0] in ('t', '?') else ('cstr', p) for p in P(1))
                elif len(x.ops) >= 3:
                    m[('T', e)] = norm(self.part(fn, x, m, env))
                return none
            if last in ('operator=', 'assign') and len(x.ops) == 2:
                m[('T', fn.e(x.ops[0]))] = P(1) if not self.ischar(fn, x.ops[1]) else norm((self.char(fn, x.ops[1], env),))
                return none
            if last in ('operator+=', 'append', 'push_back') and len(x.ops) == 2:
                add = P(1) if not self.ischar(fn, x.ops[1]) else (self.char(fn, x.ops[1], env),)
                m[('T', fn.e(x.ops[0]))] = norm(P(0) + add)
                return none
            if last == 'clear':
                m[('T', fn.e(x.ops[0]))] = ()
                return none
            if last in ('insert', 'erase', 'replace', 'resize', 'assign', 'append', 'pop_back', 'swap'):
                m[('T', fn.e(x.ops[0]))] = (('?', last),)
                return none
            if last in ('data', 'c_str', 'operator basic_string_view'):
                e = fn.e(x.ops[0])
                return (('P', e),) if ('T', e) in m else none
            if sret is not None:
                self.put(fn, x.ops[sret], m, (('?', last),))
            return none
        if q == 'std::operator+' and sret is not None and len(x.ops) == 3:
            a = P(1) if not self.ischar(fn, x.ops[1]) else (self.char(fn, x.ops[1], env),)
            b = P(2) if not self.ischar(fn, x.ops[2]) else (self.char(fn, x.ops[2], env),)
            self.put(fn, x.ops[0], m, a + b)
            return none
        if last == 'to_string' and sret is not None:
            self.put(fn, x.ops[0], m, (('num', self.T(fn).t(x.ops[1])),))
            return none
        if q in ('std::move', 'std::forward') and len(x.ops) == 1:
            e = fn.e(x.ops[0])
            return (('P', e),) if ('T', e) in m else none
        if sret is not None and fn.e(x.ops[sret])[0] == 'alloca':
            self.put(fn, x.ops[sret], m, (('?', q),))
        # anything else that gets a string by a pointer it may change
        for i, o in enumerate(x.ops):
            e = fn.e(o)
            if i != sret and ('T', e) in m and e[0] == 'alloca' and self.mutable(x, i):
                m[('T', e)] = (('?', q),)
        return None

    def mutable(self, x, i):
        q = self.P.callee_name(x) or ''
        last = simple(q).split('::')[-1]
        if last in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'length', 'swap', 'operator[]'):
            return last in ('begin', 'swap', 'operator[]')
        if q.startswith('llvm.') or re.match(r'std::(__|operator)', q):
            return False
        g = self.P.functions.get(x.callee)
        if g is not None:
            # a project function: does it write through this argument?
            n = g.raw.get('sig') or ''
            return i > 0 and 'const' not in n and False
        return False

    def isptr(self, fn, o):
        if isinstance(o, dict):
            return o.get('k') not in ('i',)
        return (fn.args[o][1] if o < fn.nargs else fn.ins[o].raw['t']) == 'ptr'

    def ischar(self, fn, o):
        return not self.isptr(fn, o)

    def char(self, fn, o, env):
        v = self.val(fn, o, env)
        if isinstance(v, int):
            return ('t', chr(v & 255))
        return ('chr', self.T(fn).t(o))

    def part(self, fn, x, m, env):
        """string(str, pos, n), string(ptr, n), string(n, c)"""
        if self.isptr(fn, x.ops[1]):
            a = self.pieces(fn, x.ops[1], m, env)
            e = self.T(fn)
            if len(x.ops) in (3, 4) and len(a) == 1 and a[0][0] != 't':
                return (('part', a[0]) + tuple(e.t(o) for o in x.ops[2:] if not self.isptr(fn, o)),)
        return (('?', 'part'),)
