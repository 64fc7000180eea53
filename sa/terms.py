"""Terms: expressions with class temporaries and call results written out.

('call', qualified name, args...)   result of a call (an object returned by value, or a scalar)
('s', text)                         a string object or literal with constant contents
('var', alloca id)                  a local object that is changed after its construction, or built in several places
everything else as in ir.Fn.e, with these substituted."""
import re
from .ir import walk

CTOR = re.compile(r'C[12]E')
DTOR = re.compile(r'D[012]Ev$')
COPY = re.compile(r'C[12]E(RKS\d*_|OS\d*_|RKN?.*basic_string.*|)$')
MUT = {'append', 'operator+=', 'operator=', 'push_back', 'insert', 'erase', 'assign', 'resize', 'replace', 'clear', 'operator/=', 'replace_extension',
       'emplace_back', 'pop_back', 'swap', 'reserve', 'add_detail', 'next', 'operator++', 'remove_filename', 'with'}
STR = 'std::__cxx11::basic_string'


def simple(q):
    """name without template arguments"""
    while True:
        r = re.sub(r'<[^<>]*>', '', q)
        if r == q:
            return q
        q = r


class Terms:
    def __init__(self, f):
        self.f = f
        self.P = f.prog
        self.defs = {}
        self.muts = {}
        for x in f.calls():
            if not x.ops:
                continue
            n = x.raw.get('f') or ''
            s = x.raw.get('sret')
            if s is not None:
                a = f.e(x.ops[s])
                if a[0] == 'alloca':
                    self.defs.setdefault(a[1], []).append(x)
                    continue
            a = f.e(x.ops[0])
            if a[0] != 'alloca':
                continue
            if DTOR.search(n):
                continue
            if CTOR.search(n) and self.is_ctor(n):
                self.defs.setdefault(a[1], []).append(x)
            else:
                q = simple(self.P.callee_name(x) or '')
                if q.split('::')[-1] in MUT and not (q.endswith('::operator=') and False):
                    self.muts.setdefault(a[1], []).append(x)
        for x in f.all():
            if x.op == 'store' and f.e(x.ops[1])[0] == 'alloca':
                self.defs.setdefault(f.e(x.ops[1])[1], []).append(x)
        self._t = {}

    def is_ctor(self, n):
        q = simple(self.P.qname(n)).split('::')
        return len(q) >= 2 and q[-1].split('[')[0] == q[-2].split('[')[0]

    def t(self, v):
        """term of an operand (value id or constant)"""
        return self.e(self.f.e(v))

    def e(self, e, depth=0):
        if not isinstance(e, tuple) or not e:
            return e
        k = e[0]
        if k in ('c', 's', 'arg', 'g', 'fn', 'null'):
            return e
        if e in self._t:
            return self._t[e]
        self._t[e] = e     # recursion guard
        r = self._e(e, depth)
        self._t[e] = r
        return r

    def _e(self, e, depth):
        k = e[0]
        if depth > 30:
            return e
        if k == 'phi':
            # a field that is looked up in one place only, or absent
            got = set()
            for v in leaves(self.f, e[1]):
                l = self.f.e(v)
                if l in (('null',), ('c', 0)):
                    continue
                if l[0] != 'res' or not self.f.ins[l[1]].is_call or (self.P.callee_name(self.f.ins[l[1]]) or '') not in LOOKUPS:
                    return e
                got.add(self.e(l, depth + 1))
            return next(iter(got)) if len(got) == 1 else e
        if k == 'alloca':
            ds = self.defs.get(e[1], [])
            if len(ds) != 1 or self.muts.get(e[1]):
                return ('var', e[1])
            x = ds[0]
            if x.op == 'store':
                return self.e(f_e(self.f, x.ops[0]), depth + 1)
            return self.call(x, skip=x.raw.get('sret', 0), depth=depth, ctor=x.raw.get('sret') is None)
        if k == 'res':
            x = self.f.ins[e[1]]
            if not x.is_call:
                return e
            return self.call(x, skip=None, depth=depth, ctor=False)
        return tuple(self.e(s, depth + 1) if isinstance(s, tuple) else s for s in e)

    def call(self, x, skip=None, depth=0, ctor=False):
        f = self.f
        ts = self.P.target_qs(x)
        q = simple(self.P.callee_name(x) or (sorted(ts)[0] if ts else '?'))
        args = [self.e(f.e(o), depth + 1) for i, o in enumerate(x.ops) if i != skip]
        if ctor:
            n = x.raw.get('f') or ''
            if q == STR + '::basic_string':
                if len(x.ops) == 3 and f.e(x.ops[1])[0] == 's':
                    return f.e(x.ops[1])
                if len(x.ops) == 2:
                    return args[0]
            if len(x.ops) == 2 and re.search(r'C[12]E(RKS|OS)\d*_$', n):
                return args[0]
            if q in ('boost::filesystem::path::path', 'boost::filesystem::path') and len(args) >= 1:
                return args[0]
        if q == 'operator new':
            return ('new', x.id)
        last = q.split('::')[-1]
        if last in ('c_str', 'data', 'string', 'move', 'forward', 'operator basic_string') and len(args) == 1:
            return args[0]
        return ('call', q) + tuple(args)

    def facts(self, x):
        from .ir import truth
        return [self.e(truth(c, t)) for c, t in f_facts(self.f, x)]


def f_facts(f, x):
    return f.facts(x)


def f_e(f, v):
    return f.e(v)


def leaves(f, v):
    out, seen, st = [], set(), [v]
    while st:
        v = st.pop()
        if isinstance(v, int):
            if v in seen:
                continue
            seen.add(v)
            x = f.ins.get(v) if v >= f.nargs else None
            if x is not None and x.op == 'phi':
                st += [w for _, w in x.raw['in']]
                continue
        elif v.get('k') in ('undef', 'poison'):
            continue
        out.append(v)
    return out


LOOKUPS = ('Table::get_field', 'Table::get_index')


def calls_of(t, name):
    """sub-terms that are calls of the function"""
    return [s for s in walk(t) if s[0] == 'call' and (s[1] == name or s[1].split('::')[-1] == name)]


def col(t):
    """name of the column a field expression stands for"""
    if t[0] == 's':
        return t[1]
    if t[0] == 'call' and t[1] == 'Table::get_field' and len(t) >= 4 and t[3][0] == 's':
        return t[3][1]
    return None


def column(t):
    """(record term, column name, how) for a value read out of a record"""
    if t[0] == 'ld':
        t = t[1]
    if t[0] == 'call' and t[1] == 'System::ToIntDef':
        r = column(t[2])
        return r and (r[0], r[1], 'int')
    if t[0] == 'call' and t[1].startswith('TableRecord::') and len(t) >= 4:
        c = col(t[3])
        if c:
            return (t[2], c, t[1].split('::')[-1])
    return None
