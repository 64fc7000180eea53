"""What a path object stands for at a place in a function: the term it was built from, followed by the parts appended to it
(('path', base, part, ...)), the string operations included.  Several possible values give ('alt', values); a change that may or
may not have happened gives ('unknown',)."""
import re
from .terms import Terms, simple, CTOR, DTOR

STR = 'std::__cxx11::basic_string'
PATH = 'boost::filesystem::path'
APPEND = re.compile(r'(append_v[34]|append|operator/=)$')
STRADD = ('operator+=', 'append')


class Paths:
    def __init__(self, f):
        self.f = f
        self.P = f.prog
        self.T = Terms(f)
        self._v = {}
        self._ev = {}

    def receiver(self, x):
        """the path an append works on: boost passes it on through a functor made just before"""
        f = self.f
        e = f.e(x.ops[0])
        if e[0] in ('alloca', 'arg', 'g', 'fld'):
            return e
        best = None
        for y in self.functors():
            if (y.bb == x.bb and y.pos < x.pos or y.bb != x.bb and f.bdom(y.bb, x.bb)) and (best is None or y.id > best.id):
                best = y
        return f.e(best.ops[1]) if best is not None else e

    def functors(self):
        if getattr(self, '_fun', None) is None:
            self._fun = [y for y in self.f.calls() if simple(self.P.callee_name(y) or '').split('::')[-1] == 'append_op' and len(y.ops) > 1]
        return self._fun

    def events(self, a):
        """the calls that build or change the local object"""
        if a not in self._ev:
            self._ev[a] = self._events(a)
        return self._ev[a]

    def _events(self, a):
        f = self.f
        out = []
        for x in f.calls():
            if not x.ops:
                continue
            n = x.raw.get('f') or ''
            q = simple(self.P.callee_name(x) or '')
            last = q.split('::')[-1]
            s = x.raw.get('sret')
            if 'append_v' in last or last == 'operator/=' and PATH in q:
                if self.receiver(x) == ('alloca', a):
                    out.append((x, 'join'))
            elif s is not None and f.e(x.ops[s]) == ('alloca', a):
                out.append((x, 'def'))
            elif f.e(x.ops[0]) == ('alloca', a) and s != 0:
                if DTOR.search(n):
                    out.append((x, 'end'))
                elif CTOR.search(n) and self.T.is_ctor(n):
                    out.append((x, 'def'))
                elif last == 'operator=':
                    out.append((x, 'def'))
                elif APPEND.search(q) and (PATH in q or 'path_algorithms' in q):
                    out.append((x, 'join'))
                elif last in STRADD and STR in q:
                    out.append((x, 'add'))
                elif last in ('clear', 'swap', 'assign', 'insert', 'erase', 'replace', 'resize', 'replace_extension', 'remove_filename', 'replace_filename', 'push_back'):
                    out.append((x, 'odd'))
        for x in f.all():
            if x.op == 'store' and f.e(x.ops[1]) == ('alloca', a):
                out.append((x, 'store'))
        return out

    def of(self, o, at):
        return self.val(self.f.e(o), at, 0)

    def val(self, e, at, depth):
        f = self.f
        if depth > 24 or not isinstance(e, tuple) or not e:
            return ('unknown',)
        k = (e, at.id if at is not None else None)
        if k in self._v:
            return self._v[k]
        self._v[k] = ('unknown',)
        r = self._val(e, at, depth)
        self._v[k] = r
        return r

    def _val(self, e, at, depth):
        f = self.f
        if e[0] == 'alloca':
            ev = self.events(e[1])
            marks = {x for x, k in ev}
            defs = [(x, k) for x, k in ev if k in ('def', 'store')
                    and f.path_avoiding(x, lambda z: z is at, lambda z: z is not at and z in marks and kind(ev, z) in ('def', 'store', 'end')) is not None]
            if not defs:
                return ('unknown',)
            outs = []
            for d, k in defs:
                v = self.built(d, k, e, depth)
                parts = []
                for y, k2 in ev:
                    if k2 not in ('join', 'add', 'odd') or y is at:
                        continue
                    if f.path_avoiding(d, lambda z: z is y, lambda z: z in marks and kind(ev, z) in ('def', 'store', 'end') and z is not d) is None:
                        continue
                    if f.path_avoiding(y, lambda z: z is at, lambda z: z in marks and kind(ev, z) in ('def', 'store', 'end')) is None:
                        continue
                    sure = f.path_avoiding(d, lambda z: z is at, lambda z: z is y or z in marks and kind(ev, z) in ('def', 'store', 'end')) is None
                    again = f.path_avoiding(y, lambda z: z is y, lambda z: z in marks and kind(ev, z) in ('def', 'store', 'end')) is not None
                    parts.append((y, k2, sure and not again))
                parts.sort(key=lambda p: p[0].id)
                for y, k2, sure in parts:
                    if k2 == 'odd':
                        v = ('changed', v)
                        continue
                    p = self.part(y, depth)
                    w = join(v, p) if k2 == 'join' else add(v, p)
                    v = w if sure else alt([v, w])
                outs.append(v)
            return alt(outs)
        if e[0] == 'phi':
            return alt([self.val(f.e(v), at, depth + 1) for _, v in f.ins[e[1]].raw['in']])
        if e[0] == 'res':
            x = f.ins[e[1]]
            if not x.is_call:
                return e
            q = simple(self.P.callee_name(x) or '')
            last = q.split('::')[-1]
            if last in ('c_str', 'data', 'string', 'move', 'forward', 'native', 'generic_string') and len(x.ops) == 1:
                return self.val(f.e(x.ops[0]), x, depth + 1)
            if last in ('operator=', 'operator+=', 'operator/=', 'append'):
                return self.val(f.e(x.ops[0]), at, depth + 1)
            return ('call', q) + tuple(self.val(f.e(o), x, depth + 1) for o in x.ops)
        if e[0] in ('data', 'bc') and len(e) > 1 and isinstance(e[1], tuple):
            return self.val(e[1], at, depth + 1)
        if e[0] == 'sel' and len(e) == 4:
            return alt([self.val(e[2], at, depth + 1), self.val(e[3], at, depth + 1)])
        if e[0] in ('s', 'c', 'arg', 'g', 'null'):
            return e
        if e[0] == 'ld' and e[1][0] == 'g':
            return e[1]
        return self.T.e(e)

    def part(self, y, depth):
        """what is appended by a call: the object its arguments point into"""
        for o in y.ops[1:]:
            e = self.f.e(o)
            while isinstance(e, tuple) and e[0] in ('data', 'elt', 'bc', 'size', 'add', 'ptradd') and len(e) > 1 and isinstance(e[1], tuple):
                e = e[1]
            return self.val(e, y, depth + 1)
        return ('unknown',)

    def built(self, d, k, e, depth):
        f = self.f
        if k == 'store':
            return self.val(f.e(d.ops[0]), d, depth + 1)
        s = d.raw.get('sret')
        q = simple(self.P.callee_name(d) or '')
        last = q.split('::')[-1]
        args = [self.val(f.e(o), d, depth + 1) for i, o in enumerate(d.ops) if i != (s if s is not None else 0)]
        if s is None:       # constructor or assignment
            if last == 'operator=' or PATH in q or 'filesystem' in q:
                return args[0] if args else ('s', '')
            if q.startswith(STR) or 'basic_string' in q:
                return args[0] if args else ('s', '')
            return ('call', q) + tuple(args)
        if last in ('c_str', 'data', 'string', 'move', 'forward', 'native', 'generic_string') and len(args) == 1:
            return args[0]
        if q.endswith('operator+') and len(args) >= 2:
            return add(args[0], args[1])
        if q.endswith('operator/') and len(args) >= 2:
            return join(args[0], args[1])
        return ('call', q) + tuple(args)


def kind(ev, z):
    return next((k for x, k in ev if x is z), None)


def alt(vs):
    out = []
    for v in vs:
        for w in (v[1:] if v[0] == 'alt' else (v,)):
            if w not in out:
                out.append(w)
    if len(out) == 1:
        return out[0]
    return ('alt',) + tuple(sorted(out, key=repr))


def join(a, b):
    if a[0] == 'alt':
        return alt([join(w, b) for w in a[1:]])
    if a[0] == 'path':
        return a + (b,)
    return ('path', a, b)


def add(a, b):
    if a[0] == 'path':
        return a[:-1] + (add(a[-1], b),)
    if a[0] == 'cat':
        a, rest = a[1:], ()
    else:
        a = (a,)
    b = b[1:] if b[0] == 'cat' else (b,)
    if a[-1][0] == 's' and b[0][0] == 's':
        r = a[:-1] + (('s', a[-1][1] + b[0][1]),) + b[1:]
    else:
        r = a + b
    r = tuple(x for x in r if x != ('s', ''))
    if not r:
        return ('s', '')
    return r[0] if len(r) == 1 else ('cat',) + r
